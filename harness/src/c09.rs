//! C09: copy-on-write copies only what an insertion must change.
use crate::{entries, model::{Rec, Ix}, sv::*};
use sherman::param::*;
use sherman::{Cursor, RleTree, Slice};
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

const IDS: usize = 96;
static CLONED: [AtomicU8; IDS] = [const { AtomicU8::new(0) }; IDS];
static NEXT: AtomicU8 = AtomicU8::new(0);
fn reset() { let mut i = 0; while i < IDS { CLONED[i].store(0, Relaxed); i += 1; } }
fn clones() -> u8 { let mut s = 0; let mut i = 0; while i < IDS { s += CLONED[i].load(Relaxed); i += 1; } s }
fn id() -> u8 { NEXT.fetch_add(1, Relaxed) }

/// counts how often it is cloned; `J`: joins with what is on its left if willing
pub struct Cn<const J: bool> { id: u8, heap: Box<u8>, willing: bool }
impl<const J: bool> Cn<J> { fn new(willing: bool) -> Self { let id = id(); Cn { id, heap: Box::new(id), willing } } }
impl<const J: bool> Clone for Cn<J> { fn clone(&self) -> Self { CLONED[self.id as usize].fetch_add(1, Relaxed); Cn { id: self.id, heap: self.heap.clone(), willing: self.willing } } }
impl<const J: bool> Slice<Ix> for Cn<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, _: Ix) -> Self { Cn::new(self.willing) }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> { if other.willing && !self.willing { Ok(self) } else { Err((self, other)) } }
}
type T<const M: usize, const J: bool> = RleTree<Ix, Cn<J>, AllowCow, M>;
const CAP: usize = 48;
#[derive(Clone)]
struct Shot { n: usize, start: [Ix; CAP], size: [Ix; CAP], id: [u8; CAP], addr: [usize; CAP], path: [Rec; CAP] }
fn shoot<const M: usize, const J: bool>(t: &T<M, J>) -> Shot {
    let mut s = Shot { n: 0, start: [0; CAP], size: [0; CAP], id: [0; CAP], addr: [0; CAP], path: [Rec::new_empty(); CAP] };
    for e in t.iter(..) {
        let k = s.n;
        s.start[k] = e.range().start; s.size[k] = e.size(); s.id[k] = e.slice().id; s.addr[k] = e.slice() as *const _ as usize;
        check(*e.slice().heap == s.id[k], "a slice is what it was made as");
        s.path[k] = t.cursor_to(s.start[k]);
        s.n += 1;
    }
    s
}
/// is `a` a node on the way to, or an immediate sibling of a node on the way to, `p`?
fn near(a: &Rec, p: &Rec) -> bool {
    let d = a.len();
    if d == 0 { return true; }
    if p.len() < d || !a.same_to(p, d - 1) { return false; }
    let (x, y) = (byte(a, d - 1), byte(p, d - 1));
    x == y
}
fn byte(a: &Rec, d: usize) -> u8 { let mut i = 0; while i < 250 { if a.at(d) == crate::model::component(i) { return i; } i += 1; } 250 }

/// where: 2k a gap before run k, 2k+1 inside run k
fn place(s: &Shot, end: bool) -> (usize, bool, Ix) {
    let g = s.n + end as usize;
    let c = choose(g + s.n);
    if c < g { (c, false, if c < s.n { s.start[c] } else if s.n > 0 { s.start[s.n - 1] + s.size[s.n - 1] } else { 0 }) }
    else { let k = c - g; let d = range(16, 1, 0xfff0) as u16; assume(d < s.size[k]); (k, true, s.start[k] + d) }
}
fn size() -> Ix { range(16, 1, 0x3ff) as u16 }
/// An insertion into `t`: of the slices it clones, each is at that moment in a node shared with one of `others` and on or next
/// to the path to the insertion point, and is cloned once.
fn insert<const M: usize, const J: bool>(t: &mut T<M, J>, others: &[&T<M, J>]) {
    let s = shoot(t);
    let mut shared = [false; CAP];
    let mut any = false;
    for o in others { for e in o.iter(..) { let a = e.slice() as *const _ as usize; for k in 0..s.n { if s.addr[k] == a { shared[k] = true; any = true; } } } }
    let (k, inside, p) = place(&s, true);
    reset();
    let w = J && choose(2) == 1;
    t.insert(p, Cn::new(w), size());
    // the runs around the insertion point
    let (lo, hi) = (if k > 0 { k - 1 } else { 0 }, if inside { k + 1 } else { k });
    let mut of_mine = 0;
    let mut i = 0;
    while i < s.n {
        let c = CLONED[s.id[i] as usize].load(Relaxed);
        check(c <= 1, "an insertion clones no slice twice");
        if c > 0 {
            check(shared[i], "an insertion clones no slice of a node that is not shared");
            let mut ok = false;
            let mut q = lo;
            while q <= hi && q < s.n { ok = ok || near(&s.path[i], &s.path[q]); q += 1; }
            check(ok, "an insertion clones slices only on or next to the path to the insertion point");
        }
        of_mine += c;
        i += 1;
    }
    check(clones() == of_mine, "an insertion clones only slices of its own tree");
    if !any { check(clones() == 0, "an insertion into a tree that shares nothing clones nothing"); }
    log(of_mine as u64);
}
/// as `insert`, with other trees that have shared nothing with `t` since the last clone was dropped
fn alone<const M: usize, const J: bool>(t: &mut T<M, J>) { insert(t, &[]); check(clones() == 0, "an insertion into a tree that shares nothing clones nothing"); }
fn dup<const M: usize, const J: bool>(t: &T<M, J>) -> T<M, J> { reset(); let u = t.clone(); check(clones() == 0, "cloning the tree clones no slice"); u }
fn reads<const M: usize, const J: bool>(t: &T<M, J>, get: bool) {
    reset();
    let n = shoot(t).n;
    check(n == t.number_of_slices(), "iteration yields every run");
    let mut it = t.iter(..); while it.next_back().is_some() {}
    if n > 0 && get { let s = shoot(t); let (_, _, p) = place(&s, false); check(*t.get(p).slice().heap < IDS as u8, "a slice"); }
    check(clones() == 0, "reading clones no slice");
}
fn start<const M: usize, const J: bool>(n: usize) -> T<M, J> {
    let mut t: T<M, J> = RleTree::new_empty();
    let pat = choose(3);
    let mut sz = [0 as Ix; CAP];
    reset();
    for i in 0..n {
        let s = size();
        let g = match pat { 0 => i, 1 => 0, _ => i / 2 };
        let mut p = 0; for j in 0..g { p += sz[j]; }
        t.insert(p, Cn::new(false), s);
        let mut j = i; while j > g { sz[j] = sz[j - 1]; j -= 1; } sz[g] = s;
    }
    check(clones() == 0, "insertions into a tree that was never cloned clone nothing");
    t
}
/// a clone, then `k` insertions into either, then one is dropped and the other is changed again
fn pair<const M: usize, const J: bool>(n: usize, k: usize) {
    let live0 = live();
    {
        let mut t = start::<M, J>(n);
        let mut u = dup(&t);
        for _ in 0..k { if choose(2) == 0 { insert(&mut t, &[&u]) } else { insert(&mut u, &[&t]) } }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
fn dropped<const M: usize, const J: bool>(n: usize, k: usize) {
    let live0 = live();
    {
        let mut t = start::<M, J>(n);
        let mut u = dup(&t);
        for _ in 0..k { if choose(2) == 0 { insert(&mut t, &[&u]) } else { insert(&mut u, &[&t]) } }
        reset();
        let first = choose(2);
        let mut left = if first == 0 { drop(t); u } else { drop(u); t };
        check(clones() == 0, "dropping clones no slice");
        alone(&mut left);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// three trees
fn three<const M: usize, const J: bool>(n: usize) {
    let live0 = live();
    {
        let mut t = start::<M, J>(n);
        let mut u = dup(&t);
        insert(&mut u, &[&t]);
        let mut v = if choose(2) == 0 { dup(&u) } else { dup(&t) };
        match choose(3) { 0 => insert(&mut t, &[&u, &v]), 1 => insert(&mut u, &[&t, &v]), _ => insert(&mut v, &[&t, &u]) }
        reads(&t, false); reads(&u, false); reads(&v, false);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
fn reading<const M: usize, const J: bool>(n: usize) {
    let t = start::<M, J>(n);
    let mut u = dup(&t);
    reads(&t, false); reads(&u, false);
    insert(&mut u, &[&t]);
    if choose(2) == 0 { reads(&t, true) } else { reads(&u, true) }
    cover(1);
}

entries! {
    c09_m1_n1_k2 => pair::<1, false>(1, 2);
    c09_m1_n3_k2 => pair::<1, false>(3, 2);
    c09_m1_n5_k2 => pair::<1, false>(5, 2);
    c09_m1_n8_k1 => pair::<1, false>(8, 1);
    c09_m1_n8_k2 => pair::<1, false>(8, 2);
    c09_m1_n16_k1 => pair::<1, false>(16, 1);
    c09_m2_n7_k2 => pair::<2, false>(7, 2);
    c09_m2_n14_k1 => pair::<2, false>(14, 1);
    c09_m3_n20_k1 => pair::<3, false>(20, 1);
    c09_m5_n11_k1 => pair::<5, false>(11, 1);
    c09_m5_n24_k1 => pair::<5, false>(24, 1);
    c09_join_m1_n4_k2 => pair::<1, true>(4, 2);
    c09_join_m1_n8_k1 => pair::<1, true>(8, 1);
    c09_join_m2_n7_k1 => pair::<2, true>(7, 1);
    c09_dropped_m1_n3_k1 => dropped::<1, false>(3, 1);
    c09_dropped_m1_n8_k1 => dropped::<1, false>(8, 1);
    c09_dropped_m1_n4_k2 => dropped::<1, false>(4, 2);
    c09_dropped_m2_n7_k1 => dropped::<2, false>(7, 1);
    c09_dropped_m5_n12_k1 => dropped::<5, false>(12, 1);
    c09_dropped_join_m1_n4_k1 => dropped::<1, true>(4, 1);
    c09_three_m1_n4 => three::<1, false>(4);
    c09_three_m1_n7 => three::<1, false>(7);
    c09_three_m2_n6 => three::<2, false>(6);
    c09_reading_m1_n5 => reading::<1, false>(5);
    c09_reading_m2_n7 => reading::<2, false>(7);
}
