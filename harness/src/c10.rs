//! C10: slice references keep designating their slice.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{Borrow, Cursor, RleTree, SliceRef};

type T<const J: bool, const M: usize> = RleTree<Ix, Tok<J>, AllowSliceRefs, M>;
type R<const J: bool, const M: usize> = SliceRef<Ix, Tok<J>, M>;

/// the reference is as one freshly made for run `g`
pub fn designates<const J: bool, const M: usize>(t: &T<J, M>, l: &List, r: &R<J, M>, g: usize) {
    check(r.is_valid(), "the reference is valid");
    check(r.can_borrow(), "the reference can borrow");
    let s = l.start(g);
    let x = r.range();
    check(x.start == s && x.end == s + l.runs[g].size, "the reference's range is that of its run");
    let y = r.try_range();
    check(y == Some(x.clone()), "try_range is range");
    let b = r.borrow_slice();
    l.runs[g].matches(&*b);
    let e = t.get(s);
    check(std::ptr::eq(&*b, e.slice()), "the borrow is of the slice in the tree");
    let c: Rec = r.cursor();
    let d: Rec = t.cursor_to(s);
    check(c.same(&d), "the reference's cursor is the path to its run");
    log(x.start as u64);
}
/// a tree of `n` runs; with `J`, runs that join with what is inserted later only
fn start<const J: bool, const M: usize>(n: usize) -> (T<J, M>, List) {
    let mut l = List::new();
    let mut t: T<J, M> = RleTree::new_empty();
    let pat = choose(3);
    for i in 0..n {
        let s = size();
        let c = if J { Class { l: 2, r: 1, s: 1 } } else { Class::NONE };
        let g = match pat { 0 => l.n, 1 => 0, _ => l.n / 2 };
        t.insert(l.start(g), Tok::new(i as u8, c, s), s);
        l.insert(At::Gap(g), Run::new(i as u8, c, s));
    }
    (t, l)
}
fn step<const J: bool, const M: usize>(t: &mut T<J, M>, l: &mut List, id: u8, tags: &mut [usize]) {
    let at = l.any_at(true);
    let c = if J { Class::any() } else { Class::NONE };
    if J { assume(!l.joins_both(at, c)); }
    let s = size();
    t.insert(l.pos(at), Tok::new(id, c, s), s);
    l.insert_track(at, Run::new(id, c, s), tags);
}
/// references to two runs (possibly the same), then insertions
fn keep<const J: bool, const M: usize>(n: usize, k: usize) {
    let live0 = live();
    {
        let (mut t, mut l) = start::<J, M>(n);
        let mut tags = [choose(n), choose(n)];
        let r = [t.get(l.start(tags[0])).make_ref(), t.get(l.start(tags[1])).make_ref()];
        for i in 0..k { step(&mut t, &mut l, 100 + i as u8, &mut tags); }
        for i in 0..2 { designates(&t, &l, &r[i], tags[i]); }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// every run has a reference
fn all<const J: bool, const M: usize>(n: usize) {
    let (mut t, mut l) = start::<J, M>(n);
    let mut tags = [0; 32];
    let mut r: [Option<R<J, M>>; 32] = [const { None }; 32];
    for i in 0..n { tags[i] = i; r[i] = Some(t.get(l.start(i)).make_ref()); }
    step(&mut t, &mut l, 100, &mut tags[..n]);
    for i in 0..n { match &r[i] { Some(r) => designates(&t, &l, r, tags[i]), None => {} } }
    cover(1);
}
/// making, cloning and dropping references in any order, with insertions in between
fn manage<const M: usize>(n: usize, k: usize) {
    let live0 = live();
    {
        let (mut t, mut l) = start::<false, M>(n);
        let mut tags = [usize::MAX / 2; 3];
        let mut r: [Option<R<false, M>>; 3] = [None, None, None];
        for i in 0..k {
            match choose(4) {
                0 => { let (j, g) = (choose(3), choose(l.n)); tags[j] = g; r[j] = Some(t.get(l.start(g)).make_ref()); }
                1 => { let (j, x) = (choose(3), choose(3)); let c = r[j].clone(); tags[x] = tags[j]; r[x] = c; }
                2 => { r[choose(3)] = None; }
                _ => { step(&mut t, &mut l, 100 + i as u8, &mut tags); }
            }
        }
        for j in 0..3 { match &r[j] { Some(x) => designates(&t, &l, x, tags[j]), None => {} } }
        same(&t, &l);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

entries! {
    c10_m1_n3_k2 => keep::<false, 1>(3, 2);
    c10_m1_n5_k1 => keep::<false, 1>(5, 1);
    c10_m1_n5_k2 => keep::<false, 1>(5, 2);
    c10_m1_n9_k1 => keep::<false, 1>(9, 1);
    c10_m2_n9_k1 => keep::<false, 2>(9, 1);
    c10_m2_n5_k2 => keep::<false, 2>(5, 2);
    c10_m3_n13_k1 => keep::<false, 3>(13, 1);
    c10_m5_n11_k1 => keep::<false, 5>(11, 1);
    c10_join_m1_n3_k2 => keep::<true, 1>(3, 2);
    c10_join_m1_n6_k1 => keep::<true, 1>(6, 1);
    c10_join_m2_n7_k1 => keep::<true, 2>(7, 1);
    c10_all_m1_n8 => all::<false, 1>(8);
    c10_all_m1_n14 => all::<false, 1>(14);
    c10_all_m2_n14 => all::<false, 2>(14);
    c10_all_m2_n24 => all::<false, 2>(24);
    c10_all_m5_n12 => all::<false, 5>(12);
    c10_all_join_m1_n8 => all::<true, 1>(8);
    c10_all_join_m2_n12 => all::<true, 2>(12);
    c10_manage_m1_n2_k3 => manage::<1>(2, 3);
    c10_manage_m1_n1_k4 => manage::<1>(1, 4);
    c10_manage_m1_n4_k3 => manage::<1>(4, 3);
}
