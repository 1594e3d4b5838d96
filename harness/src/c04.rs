//! C04: adjacent joinable slices are joined, in order, and nothing else is.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::RleTree;

type JTree<P, const M: usize> = RleTree<Ix, Tok<true>, P, M>;

/// an insertion, with arbitrary willingness to join, that does not join two runs that were there before
fn jins<P, const M: usize>(t: &mut JTree<P, M>, l: &mut List, id: u8, at: At, c: Class, both: bool) where P: RleTreeConfig<Ix, Tok<true>, M> + SupportsInsert<Ix, Tok<true>, M> {
    assume(l.joins_both(at, c) == both);
    let s = if l.n < 40 { size() } else { size_to(0x1f) };
    t.insert(l.pos(at), Tok::new(id, c, s), s);
    l.insert_join(at, Run::new(id, c, s));
}
fn history<P, const M: usize>(k: usize) where P: RleTreeConfig<Ix, Tok<true>, M> + SupportsInsert<Ix, Tok<true>, M> {
    let live0 = live();
    {
        let mut l = List::new();
        let mut t: JTree<P, M> = RleTree::new_empty();
        for i in 0..k { let at = l.any_at(true); jins(&mut t, &mut l, i as u8, at, Class::any(), false); same(&t, &l); }
        get_any(&t, &l);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// `n` unjoinable runs whose ends turn out to be joinable, then `k` arbitrary insertions
fn grown<P, const M: usize>(n: usize, k: usize) where P: RleTreeConfig<Ix, Tok<true>, M> + SupportsInsert<Ix, Tok<true>, M> {
    let live0 = live();
    {
        let mut l = List::new();
        let mut t: JTree<P, M> = RleTree::new_empty();
        let pat = choose(3);
        // appended runs may be willing on their right, prepended ones on their left: nothing joins while growing
        let c = match pat { 0 => Class { l: 0, r: 1, s: 1 }, 1 => Class { l: 2, r: 0, s: 1 }, _ => Class { l: 1, r: 2, s: 1 } };
        for i in 0..n { let g = match pat { 0 => l.n, 1 => 0, _ => l.n / 2 }; jins(&mut t, &mut l, i as u8, At::Gap(g), c, false); }
        for i in 0..k { let at = l.any_at(true); jins(&mut t, &mut l, 100 + i as u8, at, Class::any(), false); same(&t, &l); }
        get_any(&t, &l);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// an insertion that joins two runs that were there before
fn both<P, const M: usize>(n: usize) where P: RleTreeConfig<Ix, Tok<true>, M> + SupportsInsert<Ix, Tok<true>, M> {
    let mut l = List::new();
    let mut t: JTree<P, M> = RleTree::new_empty();
    // ends of colour 2 on the left and 1 on the right: nothing joins, but a run with the opposite ends fits in between
    for i in 0..n { jins(&mut t, &mut l, i as u8, At::Gap(i), Class { l: 2, r: 1, s: 0 }, false); }
    let at = At::Gap(1 + choose(n - 1));
    cover(1);
    check(!panics(|| jins(&mut t, &mut l, 100, at, Class { l: 1, r: 2, s: 0 }, true)), "an insertion that joins both its neighbours does not panic");
    same(&t, &l);
}

entries! {
    c04_m1_k3 => history::<NoFeatures, 1>(3);
    c04_m1_k4 => history::<NoFeatures, 1>(4);
    c04_m2_k3 => history::<NoFeatures, 2>(3);
    c04_m2_k4 => history::<NoFeatures, 2>(4);
    c04_cow_m1_k3 => history::<AllowCow, 1>(3);
    c04_refs_m1_k3 => history::<AllowSliceRefs, 1>(3);
    c04_m1_n4_k2 => grown::<NoFeatures, 1>(4, 2);
    c04_m1_n7_k2 => grown::<NoFeatures, 1>(7, 2);
    c04_m1_n8_k1 => grown::<NoFeatures, 1>(8, 1);
    c04_m1_n14_k1 => grown::<NoFeatures, 1>(14, 1);
    c04_m2_n12_k1 => grown::<NoFeatures, 2>(12, 1);
    c04_m2_n5_k2 => grown::<NoFeatures, 2>(5, 2);
    c04_m5_n11_k1 => grown::<NoFeatures, 5>(11, 1);
    c04_cow_m1_n8_k1 => grown::<AllowCow, 1>(8, 1);
    c04_refs_m1_n8_k1 => grown::<AllowSliceRefs, 1>(8, 1);
    c04_refs_m2_n7_k1 => grown::<AllowSliceRefs, 2>(7, 1);
    c04_both => both::<NoFeatures, 1>(2);
}
