//! C13: every slice is dropped exactly once and no memory is misused or leaked.
use crate::{entries, model::Ix, sv::*};
use sherman::param::*;
use sherman::{Borrow, BoundedCursor, Cursor, RleTree, Slice, SliceRef};
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

const IDS: usize = 200;
static GONE: [AtomicU8; IDS] = [const { AtomicU8::new(0) }; IDS];
static NEXT: AtomicU8 = AtomicU8::new(0);
/// zero-sized slices can only be counted
static MADE: AtomicU8 = AtomicU8::new(0);
static DROPPED: AtomicU8 = AtomicU8::new(0);
fn begin(id: u8) { check((id as usize) < IDS && GONE[id as usize].load(Relaxed) == 0, "a new slice") }
fn fresh() -> u8 { let n = NEXT.fetch_add(1, Relaxed); begin(n); n }
fn end(id: u8) { check(id < NEXT.load(Relaxed), "what is dropped is a slice"); check(GONE[id as usize].load(Relaxed) == 0, "a slice is dropped once"); GONE[id as usize].store(1, Relaxed) }
/// the colours of a slice's ends: ends of the same colour join (0: never). Runs at rest do not join each other.
const REST: (u8, u8) = (2, 1);
fn all_gone() { let n = NEXT.load(Relaxed) as usize; let mut i = 0; while i < n { check(GONE[i].load(Relaxed) == 1, "every slice is dropped"); i += 1; } check(MADE.load(Relaxed) == DROPPED.load(Relaxed), "every slice is dropped"); }

pub trait Pay: Slice<Ix> + Clone { fn make(ends: (u8, u8)) -> Self; fn read(&self); }
macro_rules! pay { ($name:ident, $(#[$a:meta])* { $($f:ident : $t:ty = $v:expr),* }, $read:expr) => {
    $(#[$a])* pub struct $name<const J: bool> { id: u8, ends: (u8, u8), $($f: $t),* }
    impl<const J: bool> $name<J> { fn with(ends: (u8, u8)) -> Self { let id = fresh(); #[allow(unused)] let h = id; $name { id, ends, $($f: $v(id)),* } } }
    impl<const J: bool> Drop for $name<J> { fn drop(&mut self) { end(self.id); } }
    impl<const J: bool> Clone for $name<J> { fn clone(&self) -> Self { Pay::read(self); Self::with(self.ends) } }
    impl<const J: bool> Pay for $name<J> { fn make(e: (u8, u8)) -> Self { Self::with(e) } fn read(&self) { check(self.id < NEXT.load(Relaxed) && GONE[self.id as usize].load(Relaxed) == 0, "what is read is a slice that lives"); let f: fn(&Self) -> bool = $read; check(f(self), "what is read is a slice"); } }
    impl<const J: bool> Slice<Ix> for $name<J> {
        const MAY_JOIN: bool = J;
        fn split_at(&mut self, _: Ix) -> Self { self.read(); let r = self.ends.1; self.ends.1 = 0; Self::with((0, r)) }
        fn try_join(mut self, other: Self) -> Result<Self, (Self, Self)> { self.read(); other.read(); if self.ends.1 != 0 && self.ends.1 == other.ends.0 { self.ends.1 = other.ends.1; Ok(self) } else { Err((self, other)) } }
    }
} }
pay!(Plain, { }, |_| true);
pay!(Heap, { b: Box<u8> = Box::new }, |s| *s.b == s.id);
pay!(Big, #[repr(align(64))] { a: u64 = u64::from, b: [u8; 67] = (|x| [x; 67]) }, |s| s.a == s.id as u64 && s.b[0] == s.id && s.b[66] == s.id);
pub struct Zst<const J: bool>;
impl<const J: bool> Drop for Zst<J> { fn drop(&mut self) { DROPPED.fetch_add(1, Relaxed); check(DROPPED.load(Relaxed) <= MADE.load(Relaxed), "no more slices are dropped than were made"); } }
impl<const J: bool> Clone for Zst<J> { fn clone(&self) -> Self { Pay::make(REST) } }
impl<const J: bool> Pay for Zst<J> { fn make(_: (u8, u8)) -> Self { MADE.fetch_add(1, Relaxed); Zst } fn read(&self) {} }
impl<const J: bool> Slice<Ix> for Zst<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, _: Ix) -> Self { Pay::make(REST) }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}

fn sized() -> Ix { range(16, 1, 0x3ff) as u16 }
/// a place in a tree: the start of any run, the end, or inside any run
fn place<S: Pay, P: RleTreeConfig<Ix, S, M>, const M: usize>(t: &RleTree<Ix, S, P, M>) -> Ix {
    let n = t.number_of_slices();
    let c = choose(2 * n + 1);
    if c == n { return t.size(); }
    let k = if c < n { c } else { c - n - 1 };
    let mut r = 0..0;
    let mut i = 0;
    for e in t.iter(..) { if i == k { r = e.range(); } i += 1; }
    if c < n { r.start } else { let p = sym16(); assume(r.start < p); assume(p < r.end); p }
}
fn insert<S: Pay, P: RleTreeConfig<Ix, S, M> + SupportsInsert<Ix, S, M>, const M: usize>(t: &mut RleTree<Ix, S, P, M>, how: usize) {
    let p = place(t);
    match how {
        0 => t.insert(p, S::make(REST), sized()),
        1 => { let _: BoundedCursor = t.insert_with_cursor(BoundedCursor::new_empty(), p, S::make(REST), sized()); }
        2 => check(panics(|| t.insert(p, S::make(REST), 0)), "an insertion of size zero panics"),
        3 => { let q = sym16(); assume(q > t.size()); check(panics(|| t.insert(q, S::make(REST), sized())), "an insertion beyond the end panics") }
        // joins with one neighbour at most (at this commit joining both is not supported)
        _ => t.insert(p, S::make(if choose(2) == 0 { (1, 0) } else { (0, 2) }), sized()),
    }
}
fn read<S: Pay, P: RleTreeConfig<Ix, S, M>, const M: usize>(t: &RleTree<Ix, S, P, M>) {
    let mut n = 0;
    for e in t.iter(..) { e.slice().read(); n += 1; }
    check(n == t.number_of_slices(), "iteration yields every run");
}
fn start<S: Pay, P: RleTreeConfig<Ix, S, M> + SupportsInsert<Ix, S, M>, const M: usize>(n: usize) -> RleTree<Ix, S, P, M> {
    if n == 0 { return RleTree::new_empty(); }
    let pat = choose(3);
    let mut t: RleTree<Ix, S, P, M> = RleTree::new(S::make(REST), 4);
    for i in 1..n { t.insert(match pat { 0 => 4 * i as Ix, 1 => 0, _ => 4 * (i as Ix / 2) }, S::make(REST), 4); }
    t
}
pub trait Dup<S: Pay, const M: usize>: RleTreeConfig<Ix, S, M> + SupportsInsert<Ix, S, M> + Sized { fn dup(t: &RleTree<Ix, S, Self, M>) -> RleTree<Ix, S, Self, M>; }
impl<S: Pay, const M: usize> Dup<S, M> for NoFeatures { fn dup(t: &RleTree<Ix, S, Self, M>) -> RleTree<Ix, S, Self, M> { t.clone() } }
impl<S: Pay, const M: usize> Dup<S, M> for AllowCow { fn dup(t: &RleTree<Ix, S, Self, M>) -> RleTree<Ix, S, Self, M> { t.clone() } }

/// trees that can be cloned: any `k` operations on two of them
fn plain<S: Pay, P: Dup<S, M>, const M: usize>(n: usize, k: usize, ops: usize) {
    let live0 = live();
    {
        let mut ts: [RleTree<Ix, S, P, M>; 2] = [start::<S, P, M>(n), RleTree::new_empty()];
        for _ in 0..k {
            let a = choose(2);
            match choose(ops) {
                0 => insert(&mut ts[a], 0),
                1 => ts[a] = P::dup(&ts[1 - a]),
                2 => ts[a] = RleTree::new_empty(),
                3 => { let h = 1 + choose(4); insert(&mut ts[a], h) }
                4 => { let (x, y) = ts.split_at_mut(1); std::mem::swap(&mut x[0], &mut y[0]); ts[a] = RleTree::new(S::make(REST), sized()); }
                _ => { let mut it = ts[a].iter(..); if let Some(e) = it.next_back() { let r = e.slice(); drop(it); drop(e); r.read(); } }
            }
        }
        read(&ts[0]); read(&ts[1]);
        let first = choose(2);
        let [x, y] = ts;
        if first == 0 { drop(x); read(&y); } else { drop(y); read(&x); }
    }
    all_gone();
    check(live() == live0, "everything is freed");
    cover(1);
}
/// trees with references: any `k` operations on the tree, two references and a borrow, in which the tree may go first
fn refs<S: Pay, const M: usize, const JOINS: bool>(n: usize, k: usize) {
    let live0 = live();
    {
        let mut t: Option<RleTree<Ix, S, AllowSliceRefs, M>> = Some(start(n));
        let mut r: [Option<SliceRef<Ix, S, M>>; 2] = [None, None];
        for _ in 0..k {
            match choose(7) {
                0 => { if let Some(t) = &mut t { insert(t, if JOINS { 4 } else { 0 }) } }
                1 => { let a = choose(2); if let Some(t) = &mut t { let p = place(t); r[a] = Some(t.insert_ref(p, S::make(REST), sized())) } }
                2 => { let a = choose(2); if let Some(t) = &t { if t.size() != 0 { let p = place(t); assume(p < t.size()); r[a] = Some(t.get(p).make_ref()) } } }
                3 => { let a = choose(2); r[a] = r[1 - a].clone() }
                4 => { let a = choose(2); r[a] = None }
                5 => { t = None }
                _ => { if let Some(x) = &r[choose(2)] { if let Some(b) = x.try_borrow_slice() {
                    let c = b.clone();
                    match choose(4) {
                        0 => { t = None }
                        1 => { if let Some(t) = &mut t { check(panics(|| insert(t, 0)), "an insertion into a borrowed tree panics") } }
                        2 => { let y = x.clone(); let d = y.borrow_slice(); d.read(); drop(b); c.read(); drop(d); drop(y); t = None; c.read(); continue; }
                        _ => { drop(c); b.read(); continue; }
                    }
                    b.read(); drop(b); c.read();
                } } }
            }
        }
        if let Some(t) = &t { read(t) }
        match choose(3) {
            0 => { drop(t); drop(r); }
            1 => { drop(r); if let Some(t) = &t { read(t) } }
            _ => { let [x, y] = r; drop(y); drop(t); drop(x); }
        }
    }
    all_gone();
    check(live() == live0, "everything is freed");
    cover(1);
}

entries! {
    c13_plain_m1_n1_k3 => plain::<Plain<false>, NoFeatures, 1>(1, 3, 4);
    c13_plain_m1_n3_k2 => plain::<Heap<false>, NoFeatures, 1>(3, 2, 6);
    c13_plain_m1_n7_k1 => plain::<Heap<false>, NoFeatures, 1>(7, 1, 6);
    c13_cow_m1_n1_k3 => plain::<Heap<false>, AllowCow, 1>(1, 3, 5);
    c13_cow_m1_n3_k3 => plain::<Plain<false>, AllowCow, 1>(3, 3, 3);
    c13_cow_m1_n4_k2 => plain::<Heap<false>, AllowCow, 1>(4, 2, 6);
    c13_cow_m1_n9_k1 => plain::<Plain<false>, AllowCow, 1>(9, 1, 6);
    c13_cow_m1_n9_k2 => plain::<Plain<false>, AllowCow, 1>(9, 2, 6);
    c13_cow_m2_n6_k2 => plain::<Heap<false>, AllowCow, 2>(6, 2, 6);
    c13_cow_m5_n12_k2 => plain::<Heap<false>, AllowCow, 5>(12, 2, 3);
    c13_join_m1_n3_k2 => plain::<Heap<true>, NoFeatures, 1>(3, 2, 6);
    c13_cow_join_m1_n3_k2 => plain::<Heap<true>, AllowCow, 1>(3, 2, 6);
    c13_cow_join_m2_n7_k2 => plain::<Plain<true>, AllowCow, 2>(7, 2, 4);
    c13_big_m1_n4_k1 => plain::<Big<false>, NoFeatures, 1>(4, 1, 6);
    c13_big_m2_n5_k2 => plain::<Big<true>, AllowCow, 2>(5, 2, 4);
    c13_zst_m1_n3_k2 => plain::<Zst<false>, NoFeatures, 1>(3, 2, 6);
    c13_zst_cow_m1_n4_k2 => plain::<Zst<false>, AllowCow, 1>(4, 2, 6);
    c13_zst_join_m1_n3_k1 => plain::<Zst<true>, NoFeatures, 1>(3, 1, 6);
    c13_refs_m1_n1_k3 => refs::<Plain<false>, 1, false>(1, 3);
    c13_refs_m1_n2_k4 => refs::<Plain<false>, 1, false>(2, 4);
    c13_refs_m1_n4_k2 => refs::<Heap<false>, 1, false>(4, 2);
    c13_refs_m1_n3_k3 => refs::<Heap<false>, 1, false>(3, 3);
    c13_refs_m1_n0_k3 => refs::<Heap<false>, 1, false>(0, 3);
    c13_refs_m1_n8_k2 => refs::<Plain<false>, 1, false>(8, 2);
    c13_refs_m2_n5_k2 => refs::<Big<false>, 2, false>(5, 2);
    c13_refs_m5_n10_k1 => refs::<Heap<false>, 5, false>(10, 1);
    c13_refs_m5_n10_k2 => refs::<Heap<false>, 5, false>(10, 2);
    c13_refs_zst_m1_n3_k2 => refs::<Zst<false>, 1, false>(3, 2);
    c13_refs_join_m1_n3_k2 => refs::<Heap<true>, 1, true>(3, 2);
}
