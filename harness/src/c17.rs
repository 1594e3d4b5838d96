//! C17: the tree stays balanced.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{Cursor, RleTree};

fn balanced<P, const M: usize, const J: bool>(t: &RleTree<Ix, Tok<J>, P, M>) where P: RleTreeConfig<Ix, Tok<J>, M> {
    let mut p = [Rec::new_empty(); CAP];
    let mut k = 0;
    for e in t.iter(..) { p[k] = t.cursor_to(e.range().start); k += 1; }
    let h = well_formed(&p, k, M);
    // a B-tree of height h whose nodes have at least M keys (the root 1) holds at least 2(M+1)^(h-1) - 1 of them
    if k > 0 { let mut least = 2usize; for _ in 1..h { least *= M + 1; } check(k >= least - 1, "the height is logarithmic in the number of runs"); }
    log(h as u64);
}
fn history<P, const M: usize>(n: usize, pattern: usize, k: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let mut l = List::new();
    let mut t: Tree<P, M> = RleTree::new_empty();
    for i in 0..n {
        let g = match pattern { 0 => l.n, 1 => 0, 2 => l.n / 2, 3 => if i % 2 == 0 { 0 } else { l.n }, _ => (i * 7 + i / 3) % (l.n + 1) };
        let s = size_to(0x3f);
        t.insert(l.start(g), Tok::new(i as u8, Class::NONE, s), s);
        l.insert(At::Gap(g), Run::new(i as u8, Class::NONE, s));
    }
    balanced(&t);
    for i in 0..k { ins(&mut t, &mut l, 100 + i as u8); balanced(&t); }
    cover(1);
}
fn joining<const M: usize>(n: usize, k: usize) {
    let mut l = List::new();
    let mut t: RleTree<Ix, Tok<true>, NoFeatures, M> = RleTree::new_empty();
    for i in 0..n { let s = size(); let c = Class { l: 2, r: 1, s: 1 }; t.insert(l.total(), Tok::new(i as u8, c, s), s); l.insert_join(At::Gap(i), Run::new(i as u8, c, s)); }
    for i in 0..k {
        let at = l.any_at(true); let c = Class::any(); let s = size();
        assume(!l.joins_both(at, c));
        t.insert(l.pos(at), Tok::new(100 + i as u8, c, s), s);
        l.insert_join(at, Run::new(100 + i as u8, c, s));
        balanced(&t);
    }
    cover(1);
}
fn shared<const M: usize>(n: usize) {
    let (mut t, mut l) = grow::<AllowCow, M>(n, choose(3));
    let mut u = t.clone();
    ins(&mut u, &mut l, 100);
    balanced(&u);
    balanced(&t);
    cover(1);
}

entries! {
    c17_m1_k4 => history::<NoFeatures, 1>(0, 0, 4);
    c17_m1_n7_k2 => history::<NoFeatures, 1>(7, choose(4), 2);
    c17_m1_n16_k1 => history::<NoFeatures, 1>(16, choose(5), 1);
    c17_m1_n40 => history::<NoFeatures, 1>(40, choose(5), 1);
    c17_m2_n14_k1 => history::<NoFeatures, 2>(14, choose(5), 1);
    c17_m2_n30_k1 => history::<NoFeatures, 2>(30, choose(5), 1);
    c17_m3_n20_k1 => history::<NoFeatures, 3>(20, choose(5), 1);
    c17_m5_n25_k1 => history::<NoFeatures, 5>(25, choose(5), 1);
    c17_m5_n70 => history::<NoFeatures, 5>(70, choose(5), 0);
    c17_cow_m1_n14_k1 => history::<AllowCow, 1>(14, choose(5), 1);
    c17_refs_m1_n14_k1 => history::<AllowSliceRefs, 1>(14, choose(5), 1);
    c17_join_m1_n8_k1 => joining::<1>(8, 1);
    c17_join_m1_n4_k2 => joining::<1>(4, 2);
    c17_join_m2_n8_k1 => joining::<2>(8, 1);
    c17_shared_m1_n8 => shared::<1>(8);
}
