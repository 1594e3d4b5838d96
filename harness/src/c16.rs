//! C16: index types whose addition does not commute.
use crate::{entries, sv::*};
use sherman::param::*;
use sherman::{DirectionalAdd, DirectionalSub, Index, RleTree, Slice, SliceEntry};
use std::cmp::Ordering;

/// An element of a group that is not commutative, ordered by its length `n`: (n, p, x) + (m, q, y) = (n + m, p xor q, x ± y),
/// with minus where p is set. It satisfies every documented law, also where lengths would be negative.
#[derive(Clone, Copy, Debug)]
pub struct D { n: u16, p: u8, x: u8 }
impl D {
    fn sgn(p: u8, x: u8) -> u8 { if p != 0 { 0u8.wrapping_sub(x) } else { x } }
    fn plus(self, o: D) -> D { D { n: self.n + o.n, p: self.p ^ o.p, x: self.x.wrapping_add(Self::sgn(self.p, o.x)) } }
    /// -self + o
    fn cut_front(self, o: D) -> D { D { n: o.n - self.n, p: self.p ^ o.p, x: Self::sgn(self.p, o.x.wrapping_sub(self.x)) } }
    /// self - o
    fn cut_back(self, o: D) -> D { D { n: self.n - o.n, p: self.p ^ o.p, x: self.x.wrapping_sub(Self::sgn(self.p ^ o.p, o.x)) } }
    fn exactly(self, o: D) -> bool { (self.n == o.n) & (self.p == o.p) & (self.x == o.x) }
    fn any(max: u16) -> D { D { n: range(16, 1, max as u64) as u16, p: choose(2) as u8, x: sym8() } }
}
impl DirectionalAdd for D { fn add_right(self, right: D) -> D { self.plus(right) } }
impl DirectionalSub for D {
    fn sub_left(self, left: D) -> D { check(left.n <= self.n, "the tree never subtracts a value from a smaller one"); left.cut_front(self) }
    fn sub_right(self, right: D) -> D { check(right.n <= self.n, "the tree never subtracts a value from a smaller one"); self.cut_back(right) }
}
impl PartialEq for D { fn eq(&self, o: &D) -> bool { self.n == o.n } }
impl Eq for D {}
impl PartialOrd for D { fn partial_cmp(&self, o: &D) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for D { fn cmp(&self, o: &D) -> Ordering { self.n.cmp(&o.n) } }
impl Index for D { const ZERO: D = D { n: 0, p: 0, x: 0 }; }

/// a run: which original contents, from where, how long; `l` and `r` are the colours its ends join with (0: nothing)
#[derive(Clone, Copy)]
struct Run { id: u8, off: D, len: D, l: u8, r: u8 }
struct W<const J: bool>(Box<Run>);
impl<const J: bool> Clone for W<J> { fn clone(&self) -> Self { W(self.0.clone()) } }
impl Run {
    fn split(&mut self, at: D) -> Run { let o = Run { id: self.id, off: self.off.plus(at), len: at.cut_front(self.len), l: 0, r: self.r }; self.len = at; self.r = 0; o }
    fn joins(&self, o: &Run) -> bool { self.r != 0 && self.r == o.l }
    fn join(&mut self, o: &Run) { self.len = self.len.plus(o.len); self.r = o.r; }
    fn same(&self, o: &Run) -> bool { (self.id == o.id) & self.off.exactly(o.off) & self.len.exactly(o.len) }
}
impl<const J: bool> Slice<D> for W<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, at: D) -> Self { check(at.n > 0 && at.n < self.0.len.n, "split_at is given an index inside the slice"); W(Box::new(self.0.split(at))) }
    fn try_join(mut self, o: Self) -> Result<Self, (Self, Self)> { if !self.0.joins(&o.0) { return Err((self, o)); } self.0.join(&o.0); Ok(self) }
}
type Dt<P, const M: usize, const J: bool> = RleTree<D, W<J>, P, M>;
const CAP: usize = 40;
struct List { r: [Run; CAP], n: usize }
enum At { Gap(usize), In(usize, D) }
impl List {
    fn new() -> List { List { r: [Run { id: 0, off: D::ZERO, len: D::ZERO, l: 0, r: 0 }; CAP], n: 0 } }
    fn start(&self, k: usize) -> D { let mut s = D::ZERO; let mut i = 0; while i < k { s = s.plus(self.r[i].len); i += 1; } s }
    fn pos(&self, at: &At) -> D { match at { At::Gap(k) => self.start(*k), At::In(k, d) => self.start(*k).plus(*d) } }
    fn any_at(&self, end: bool) -> At {
        let g = self.n + end as usize;
        let c = choose(g + self.n);
        if c < g { At::Gap(c) } else { let d = D::any(0xfff0); assume(d.n < self.r[c - g].len.n); At::In(c - g, d) }
    }
    fn put(&mut self, k: usize, r: Run) { let mut i = self.n; while i > k { self.r[i] = self.r[i - 1]; i -= 1; } self.r[k] = r; self.n += 1; }
    fn del(&mut self, k: usize) { let mut i = k; while i + 1 < self.n { self.r[i] = self.r[i + 1]; i += 1; } self.n -= 1; }
    fn both(&self, at: &At, x: &Run) -> bool { match at { At::Gap(k) => *k > 0 && *k < self.n && self.r[*k - 1].joins(x) && x.joins(&self.r[*k]), _ => false } }
    fn insert(&mut self, at: &At, x: Run) {
        let mut k = match at { At::Gap(k) => *k, At::In(k, d) => { let o = self.r[*k].split(*d); self.put(*k + 1, o); *k + 1 } };
        self.put(k, x);
        if k > 0 && self.r[k - 1].joins(&self.r[k]) { let x = self.r[k]; self.r[k - 1].join(&x); self.del(k); k -= 1; }
        if k + 1 < self.n && self.r[k].joins(&self.r[k + 1]) { let x = self.r[k + 1]; self.r[k].join(&x); self.del(k + 1); }
    }
}
fn entry<P, const M: usize, const J: bool>(e: &SliceEntry<'_, D, W<J>, P, M>, l: &List, k: usize) where P: RleTreeConfig<D, W<J>, M> {
    let s = l.start(k);
    let r = e.range();
    check(r.start.exactly(s), "a run starts at the in-order sum of the sizes before it");
    check(r.end.exactly(s.plus(l.r[k].len)), "a run ends at the in-order sum of the sizes up to it");
    check(e.size().exactly(l.r[k].len), "a run's size is its size");
    check(e.slice().0.same(&l.r[k]), "a run's contents");
    log(r.start.n as u64); log(r.start.x as u64);
}
fn same<P, const M: usize, const J: bool>(t: &Dt<P, M, J>, l: &List) where P: RleTreeConfig<D, W<J>, M> {
    check(t.size().exactly(l.start(l.n)), "the total size is the in-order sum of all sizes");
    check(t.number_of_slices() == l.n, "number of runs");
    let mut k = 0;
    for e in t.iter(..) { entry(&e, l, k); k += 1; }
    check(k == l.n, "iteration yields every run");
    let mut it = t.iter(..);
    while let Some(e) = it.next_back() { k -= 1; entry(&e, l, k); }
    check(k == 0, "iteration backwards yields every run");
}
fn look<P, const M: usize, const J: bool>(t: &Dt<P, M, J>, l: &List) where P: RleTreeConfig<D, W<J>, M> {
    let at = l.any_at(false);
    let k = match at { At::Gap(k) | At::In(k, _) => k };
    let i = l.pos(&at);
    match choose(3) {
        0 => entry(&t.get(i), l, k),
        1 => { let mut it = t.iter(i..); match it.next() { Some(e) => entry(&e, l, k), None => fail("iteration from an index yields the run there") } match it.next() { Some(e) => entry(&e, l, k + 1), None => check(k + 1 == l.n, "iteration goes on to the end") } }
        _ => { let mut it = t.iter(..=i); match it.next_back() { Some(e) => entry(&e, l, k), None => fail("iteration up to an index yields the run there") } match it.next_back() { Some(e) => entry(&e, l, k - 1), None => check(k == 0, "iteration goes back to the start") } }
    }
}
fn ins<P, const M: usize, const J: bool>(t: &mut Dt<P, M, J>, l: &mut List, id: u8, at: At, len: D, c: (u8, u8)) where P: RleTreeConfig<D, W<J>, M> + SupportsInsert<D, W<J>, M> {
    let x = Run { id, off: D::ZERO, len, l: c.0, r: c.1 };
    assume(!l.both(&at, &x));
    t.insert(l.pos(&at), W(Box::new(x)), len);
    l.insert(&at, x);
}
fn colours<const J: bool>() -> (u8, u8) { if J { [(1, 0), (0, 1), (2, 0), (0, 2)][choose(4)] } else { (0, 0) } }
fn grow<P, const M: usize, const J: bool>(n: usize) -> (Dt<P, M, J>, List) where P: RleTreeConfig<D, W<J>, M> + SupportsInsert<D, W<J>, M> {
    let (mut t, mut l) = (RleTree::new_empty(), List::new());
    let how = choose(3);
    // neighbours never meet with the same colour while growing
    let c = match (J, how) { (false, _) => (0, 0), (_, 0) => (2, 1), (_, 1) => (1, 2), _ => (0, 1) };
    for i in 0..n { let k = match how { 0 => l.n, 1 => 0, _ => l.n / 2 }; let len = D { n: range(16, 1, 0xff) as u16, p: (i % 3 != 1) as u8, x: sym8() }; ins(&mut t, &mut l, i as u8, At::Gap(k), len, c); }
    (t, l)
}
fn history<P, const M: usize, const J: bool>(n: usize, k: usize) where P: RleTreeConfig<D, W<J>, M> + SupportsInsert<D, W<J>, M> {
    let live0 = live();
    {
        let (mut t, mut l) = grow::<P, M, J>(n);
        for i in 0..k { let at = l.any_at(true); let len = D::any(0xff); let c = colours::<J>(); ins(&mut t, &mut l, 100 + i as u8, at, len, c); same(&t, &l); }
        look(&t, &l);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
fn reading<const M: usize>(n: usize) {
    let (t, l) = grow::<NoFeatures, M, false>(n);
    same(&t, &l);
    look(&t, &l);
    cover(1);
}
fn cow<const M: usize>(n: usize) {
    let (mut t, mut l) = grow::<AllowCow, M, false>(n);
    let u = t.clone();
    let l2 = List { r: l.r, n: l.n };
    let at = l.any_at(true); let len = D::any(0xff);
    ins(&mut t, &mut l, 100, at, len, (0, 0));
    same(&t, &l);
    same(&u, &l2);
    cover(1);
}
fn refs<const M: usize, const J: bool>(n: usize) {
    let (mut t, mut l) = grow::<AllowSliceRefs, M, J>(n);
    let k = choose(n);
    let r = t.get(l.start(k)).make_ref();
    let id = l.r[k].id;
    let at = l.any_at(true); let len = D::any(0xff); let c = colours::<J>();
    let x = Run { id: 100, off: D::ZERO, len, l: c.0, r: c.1 };
    assume(!l.both(&at, &x));
    let s = t.insert_ref(l.pos(&at), W(Box::new(x)), len);
    l.insert(&at, x);
    same(&t, &l);
    let mut p = 0;
    while l.r[p].id != id { p += 1; if p == l.n { break; } }
    if p < l.n { let q = r.range(); check(q.start.exactly(l.start(p)), "a reference's range starts where its run does"); check(q.end.exactly(l.start(p).plus(l.r[p].len)), "a reference's range ends where its run does"); cover(1); }
    let q = s.range();
    check(!J || q.start.n <= l.pos(&at).n, "the inserted run's reference");
    let mut i = 0; let mut found = false;
    while i < l.n { if l.start(i).exactly(q.start) { found = q.end.exactly(l.start(i).plus(l.r[i].len)); } i += 1; }
    check(found, "the inserted run's reference has the range of a run");
}

entries! {
    c16_m1_k3 => history::<NoFeatures, 1, false>(0, 3);
    c16_m1_n3_k2 => history::<NoFeatures, 1, false>(3, 2);
    c16_m1_n6_k1 => history::<NoFeatures, 1, false>(6, 1);
    c16_m1_n14_k1 => history::<NoFeatures, 1, false>(14, 1);
    c16_m2_n5_k1 => history::<NoFeatures, 2, false>(5, 1);
    c16_m2_n5_k2 => history::<NoFeatures, 2, false>(5, 2);
    c16_m2_n24_k1 => history::<NoFeatures, 2, false>(24, 1);
    c16_m3_n13_k1 => history::<NoFeatures, 3, false>(13, 1);
    c16_m5_n11_k1 => history::<NoFeatures, 5, false>(11, 1);
    c16_join_m1_k3 => history::<NoFeatures, 1, true>(0, 3);
    c16_join_m1_n3_k1 => history::<NoFeatures, 1, true>(3, 1);
    c16_join_m1_n8_k1 => history::<NoFeatures, 1, true>(8, 1);
    c16_join_m2_n7_k1 => history::<NoFeatures, 2, true>(7, 1);
    c16_read_m1_n9 => reading::<1>(9);
    c16_read_m2_n14 => reading::<2>(14);
    c16_cow_m1_n5 => cow::<1>(5);
    c16_cow_m2_n7 => cow::<2>(7);
    c16_refs_m1_n5 => refs::<1, false>(5);
    c16_refs_join_m1_n5 => refs::<1, true>(5);
    c16_refs_m2_n9 => refs::<2, false>(9);
}
