//! C08: clones are isolated from each other.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{RleTree, SliceEntry};

type T<P, const M: usize, const J: bool> = RleTree<Ix, Tok<J>, P, M>;
pub trait Cfg<const M: usize, const J: bool>: RleTreeConfig<Ix, Tok<J>, M> + SupportsInsert<Ix, Tok<J>, M> { fn dup(t: &T<Self, M, J>) -> T<Self, M, J> where Self: Sized; }
impl<const M: usize, const J: bool> Cfg<M, J> for NoFeatures { fn dup(t: &T<Self, M, J>) -> T<Self, M, J> { t.clone() } }
impl<const M: usize, const J: bool> Cfg<M, J> for AllowCow { fn dup(t: &T<Self, M, J>) -> T<Self, M, J> { t.clone() } }

fn put<P: Cfg<M, J>, const M: usize, const J: bool>(t: &mut T<P, M, J>, l: &mut List, id: u8, at: At, c: Class) {
    if J { assume(!l.joins_both(at, c)); }
    let s = size();
    t.insert(l.pos(at), Tok::new(id, c, s), s);
    l.insert_join(at, Run::new(id, c, s));
}
fn ins<P: Cfg<M, J>, const M: usize, const J: bool>(t: &mut T<P, M, J>, l: &mut List, id: u8) {
    let at = l.any_at(true);
    put(t, l, id, at, if J { Class::any() } else { Class::NONE });
}
/// `n` runs (unjoinable for now), in one of several build orders
fn start<P: Cfg<M, J>, const M: usize, const J: bool>(n: usize, pat: usize) -> (T<P, M, J>, List) {
    let mut l = List::new();
    let mut t: T<P, M, J> = RleTree::new_empty();
    let c = if !J { Class::NONE } else { match pat { 0 => Class { l: 0, r: 1, s: 1 }, 1 => Class { l: 2, r: 0, s: 1 }, _ => Class { l: 1, r: 2, s: 1 } } };
    for i in 0..n { let g = match pat { 0 => l.n, 1 => 0, _ => l.n / 2 }; put(&mut t, &mut l, i as u8, At::Gap(g), c); }
    (t, l)
}
/// Up to three trees: start with one of `n` runs and a clone of it, then `k` arbitrary operations, each of them an insertion
/// into a tree, cloning a tree into a free place (or over another tree), dropping a tree. Every tree that is left denotes
/// what it should.
fn history<P: Cfg<M, J>, const M: usize, const J: bool>(n: usize, k: usize) {
    let live0 = live();
    {
        let (t, l) = start::<P, M, J>(n, choose(3));
        let mut ts: [Option<T<P, M, J>>; 3] = [None, None, None];
        let mut ls: [List; 3] = [List::new(), List::new(), List::new()];
        ts[1] = Some(P::dup(&t)); ls[1] = l.clone();
        ts[0] = Some(t); ls[0] = l;
        for i in 0..k {
            // (the first place is never emptied before the last step)
            match choose(if i + 1 == k { 3 } else { 4 }) {
                0 => { let a = choose(3); assume(ts[a].is_some()); if let Some(t) = ts[a].as_mut() { ins(t, &mut ls[a], 100 + i as u8) } }
                1 => { let a = choose(3); let b = choose(3); assume(a != b && ts[a].is_some()); if let Some(t) = ts[a].as_ref() { let u = P::dup(t); ts[b] = Some(u); ls[b] = ls[a].clone(); } }
                2 => { let a = choose(3); assume(ts[a].is_some()); ts[a] = None; }
                _ => { let a = choose(3); assume(ts[a].is_some()); if let Some(t) = ts[a].as_ref() { same(t, &ls[a]); get_any(t, &ls[a]); } }
            }
        }
        for a in 0..3 { if let Some(t) = ts[a].as_ref() { same(t, &ls[a]); log(ls[a].n as u64); } }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// A chain of clones, `k` insertions each into an arbitrary one of the two that exist, then either is dropped and the other
/// compared after one more insertion.
fn pair<P: Cfg<M, J>, const M: usize, const J: bool>(n: usize, k: usize) {
    let live0 = live();
    {
        let (mut t, mut l) = start::<P, M, J>(n, choose(3));
        let (mut u, mut m) = (P::dup(&t), l.clone());
        for i in 0..k { if choose(2) == 0 { ins(&mut t, &mut l, 100 + i as u8) } else { ins(&mut u, &mut m, 100 + i as u8) } }
        match choose(5) {
            0 => { drop(t); same(&u, &m); }
            1 => { drop(u); same(&t, &l); }
            2 => { drop(t); same_back(&u, &m); }
            3 => { drop(u); same_back(&t, &l); }
            _ => { same(&t, &l); same(&u, &m); }
        }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
fn is<P: Cfg<M, J>, const M: usize, const J: bool>(e: &SliceEntry<Ix, Tok<J>, P, M>, l: &List, g: usize) {
    let s = l.start(g);
    let r = e.range();
    check(r.start == s && r.end == s + l.runs[g].size && e.size() == l.runs[g].size, "an entry held while a clone changes is as it was");
    l.runs[g].matches(e.slice());
}
/// an iterator over, an entry of and a borrowed slice of one tree while its clones change, are cloned and dropped
fn held<P: Cfg<M, J>, const M: usize, const J: bool>(n: usize, k: usize) {
    let live0 = live();
    {
        let (t, l) = start::<P, M, J>(n, choose(3));
        let (mut u, mut m) = (P::dup(&t), l.clone());
        let g = choose(n);
        let e = t.get(l.start(g));
        let s = e.slice();
        let mut it = t.iter(..);
        let f = choose(n + 1);
        for i in 0..f { if let Some(e) = it.next() { is(&e, &l, i) } else { fail("an iterator yields every run") } }
        for i in 0..k {
            match choose(3) {
                0 => ins(&mut u, &mut m, 100 + i as u8),
                1 => { u = P::dup(&u); }
                _ => { u = P::dup(&t); m = l.clone(); }
            }
        }
        let gone = choose(2) == 0;
        if gone { drop(u) } else { same(&u, &m) }
        is(&e, &l, g);
        l.runs[g].matches(s);
        let mut i = f;
        while let Some(e) = it.next() { check(i < n, "an iterator yields every run once"); is(&e, &l, i); i += 1; }
        check(i == n, "an iterator yields every run");
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// clones of clones: a chain in which every link has its own insertion, dropped in either order
fn chain<P: Cfg<M, J>, const M: usize, const J: bool>(n: usize) {
    let live0 = live();
    {
        let (mut a, mut la) = start::<P, M, J>(n, choose(2));
        let (mut b, mut lb) = (P::dup(&a), la.clone());
        if choose(2) == 0 { ins(&mut a, &mut la, 100) } else { ins(&mut b, &mut lb, 101) }
        let from = choose(2);
        let (mut c, mut lc) = if from == 0 { (P::dup(&a), la.clone()) } else { (P::dup(&b), lb.clone()) };
        match choose(3) { 0 => ins(&mut a, &mut la, 102), 1 => ins(&mut b, &mut lb, 102), _ => ins(&mut c, &mut lc, 102) }
        match choose(3) { 0 => { drop(a); same(&b, &lb); same(&c, &lc); } 1 => { drop(b); same(&a, &la); same(&c, &lc); } _ => { drop(c); same(&a, &la); same(&b, &lb); } }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// A clone, `a` insertions into either tree, either is dropped, `k` insertions into what is left. The allocator hands the
/// addresses of freed nodes out again (`mode`, see `reuse`), as real ones do, so a stale pointer may point at a node that is
/// something else by now.
fn recycled<P: Cfg<M, J>, const M: usize, const J: bool>(n: usize, shape: usize, a: usize, k: usize, mode: u64) {
    let live0 = live();
    {
        reuse(mode);
        let (mut t, mut l) = start::<P, M, J>(n, if shape == 9 { choose(3) } else { shape });
        let (mut u, mut m) = (P::dup(&t), l.clone());
        for i in 0..a { if choose(2) == 0 { ins(&mut t, &mut l, 100 + i as u8) } else { ins(&mut u, &mut m, 100 + i as u8) } }
        if choose(2) == 0 { t = u; l = m; } else { drop(u); }
        for i in 0..k { ins(&mut t, &mut l, 110 + i as u8) }
        if choose(2) == 0 { same(&t, &l); } else { let u = P::dup(&t); drop(t); same_back(&u, &l); }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// the empty tree
fn empty<P: Cfg<M, J>, const M: usize, const J: bool>() {
    let live0 = live();
    {
        let mut t: T<P, M, J> = RleTree::new_empty();
        let mut l = List::new();
        let mut u = P::dup(&t);
        let mut m = List::new();
        for i in 0..2 { if choose(2) == 0 { ins(&mut t, &mut l, i) } else { ins(&mut u, &mut m, i) } }
        same(&t, &l); same(&u, &m);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

entries! {
    c08_cow_empty => empty::<AllowCow, 1, false>();
    c08_deep_empty => empty::<NoFeatures, 1, false>();
    c08_cow_m1_n1_k4 => history::<AllowCow, 1, false>(1, 4);
    c08_cow_m1_n1_k3 => history::<AllowCow, 1, false>(1, 3);
    c08_cow_m1_n3_k2 => history::<AllowCow, 1, false>(3, 2);
    c08_cow_m1_n3_k3 => history::<AllowCow, 1, false>(3, 3);
    c08_cow_m1_n7_k2 => history::<AllowCow, 1, false>(7, 2);
    c08_deep_m1_n3_k2 => history::<NoFeatures, 1, false>(3, 2);
    c08_deep_m1_n7_k1 => history::<NoFeatures, 1, false>(7, 1);
    c08_deep_m5_n12_k1 => history::<NoFeatures, 5, false>(12, 1);
    c08_pair_m1_n3_k3 => pair::<AllowCow, 1, false>(3, 3);
    c08_pair_m1_n4_k2 => pair::<AllowCow, 1, false>(4, 2);
    c08_pair_m1_n8_k2 => pair::<AllowCow, 1, false>(8, 2);
    c08_pair_m1_n14_k1 => pair::<AllowCow, 1, false>(14, 1);
    c08_pair_m1_n26_k1 => pair::<AllowCow, 1, false>(26, 1);
    c08_pair_m2_n9_k1 => pair::<AllowCow, 2, false>(9, 1);
    c08_pair_m2_n7_k2 => pair::<AllowCow, 2, false>(7, 2);
    c08_pair_m5_n11_k1 => pair::<AllowCow, 5, false>(11, 1);
    c08_pair_join_m1_n3_k2 => pair::<AllowCow, 1, true>(3, 2);
    c08_pair_join_m1_n8_k1 => pair::<AllowCow, 1, true>(8, 1);
    c08_pair_join_m2_n7_k1 => pair::<AllowCow, 2, true>(7, 1);
    c08_pair_join_m5_n11_k1 => pair::<AllowCow, 5, true>(11, 1);
    c08_held_m1_n4_k1 => held::<AllowCow, 1, false>(4, 1);
    c08_held_m1_n4_k2 => held::<AllowCow, 1, false>(4, 2);
    c08_held_m1_n8_k1 => held::<AllowCow, 1, false>(8, 1);
    c08_held_m2_n7_k1 => held::<AllowCow, 2, false>(7, 1);
    c08_held_join_m1_n5_k1 => held::<AllowCow, 1, true>(5, 1);
    c08_held_deep_m1_n4_k1 => held::<NoFeatures, 1, false>(4, 1);
    c08_recycled_m1_n5 => recycled::<AllowCow, 1, false>(5, 2, 2, 1, 1);
    c08_recycled_m1_n8 => recycled::<AllowCow, 1, false>(8, 9, 1, 1, 1);
    c08_recycled_any_m1_n4 => recycled::<AllowCow, 1, false>(4, 9, 1, 1, 2);
    c08_recycled_join_m1_n4 => recycled::<AllowCow, 1, true>(4, 2, 1, 1, 1);
    c08_recycled_all_m1_n5 => recycled::<AllowCow, 1, false>(5, 9, 2, 1, 1);
    c08_recycled_any_m1_n8 => recycled::<AllowCow, 1, false>(8, 9, 1, 1, 2);
    c08_recycled_m2_n9 => recycled::<AllowCow, 2, false>(9, 9, 1, 1, 1);
    c08_chain_m1_n4 => chain::<AllowCow, 1, false>(4);
    c08_chain_m1_n8 => chain::<AllowCow, 1, false>(8);
    c08_chain_m2_n7 => chain::<AllowCow, 2, false>(7);
    c08_chain_join_m1_n4 => chain::<AllowCow, 1, true>(4);
}
