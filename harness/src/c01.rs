//! C01: insert and get agree with a plain list of runs.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::RleTree;

fn history<P, const M: usize>(k: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let live0 = live();
    {
        let mut l = List::new();
        let mut t: Tree<P, M> = if choose(2) == 0 { RleTree::new_empty() } else { let s = size(); l.insert(At::Gap(0), Run::new(99, Class::NONE, s)); RleTree::new(Tok::new(99, Class::NONE, s), s) };
        for i in 0..k { ins(&mut t, &mut l, i as u8); same(&t, &l); }
        get_any(&t, &l);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// `n` runs put in by one of three insertion orders, then `k` arbitrary insertions
fn grown<P, const M: usize>(n: usize, k: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let live0 = live();
    {
        let (mut t, mut l) = grow::<P, M>(n, choose(3));
        for i in 0..k { ins(&mut t, &mut l, 100 + i as u8); same(&t, &l); }
        get_any(&t, &l);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// `get` for every index in a grown tree
fn lookups<P, const M: usize>(n: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let (t, l) = grow::<P, M>(n, choose(3));
    get_any(&t, &l);
    cover(1);
}

entries! {
    c01_m1_k3 => history::<NoFeatures, 1>(3);
    c01_m1_k4 => history::<NoFeatures, 1>(4);
    c01_m1_k5 => history::<NoFeatures, 1>(5);
    c01_m2_k4 => history::<NoFeatures, 2>(4);
    c01_m2_k5 => history::<NoFeatures, 2>(5);
    c01_cow_m1_k3 => history::<AllowCow, 1>(3);
    c01_cow_m1_k4 => history::<AllowCow, 1>(4);
    c01_refs_m1_k3 => history::<AllowSliceRefs, 1>(3);
    c01_refs_m1_k4 => history::<AllowSliceRefs, 1>(4);
    c01_m1_n5_k1 => grown::<NoFeatures, 1>(5, 1);
    c01_m1_n8_k1 => grown::<NoFeatures, 1>(8, 1);
    c01_m1_n12_k1 => grown::<NoFeatures, 1>(12, 1);
    c01_m1_n6_k2 => grown::<NoFeatures, 1>(6, 2);
    c01_m1_n8_k2 => grown::<NoFeatures, 1>(8, 2);
    c01_m1_n20_k1 => grown::<NoFeatures, 1>(20, 1);
    c01_m2_n12_k1 => grown::<NoFeatures, 2>(12, 1);
    c01_m2_n10_k2 => grown::<NoFeatures, 2>(10, 2);
    c01_m3_n13_k1 => grown::<NoFeatures, 3>(13, 1);
    c01_m5_n11_k1 => grown::<NoFeatures, 5>(11, 1);
    c01_m5_n16_k1 => grown::<NoFeatures, 5>(16, 1);
    c01_m5_n10_k2 => grown::<NoFeatures, 5>(10, 2);
    c01_m5_n70 => lookups::<NoFeatures, 5>(70);
    c01_m2_n30 => lookups::<NoFeatures, 2>(30);
}
