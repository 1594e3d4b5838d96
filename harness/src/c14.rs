//! C14: a panic in user code in the middle of an operation does no harm.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{Borrow, Cursor, Index, PathComponent, RleTree, Slice, SliceRef};
use std::cmp::Ordering;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};

/// which kinds of user code may panic next, and whether one has
static ARM: AtomicU8 = AtomicU8::new(0);
static HIT: AtomicU8 = AtomicU8::new(0);
const SPLIT: u8 = 1;
const JOIN: u8 = 2;
const CLONE: u8 = 4;
const DROP: u8 = 8;
const INDEX: u8 = 16;
const CURSOR: u8 = 32;
#[inline(never)]
fn tick(kind: u8) { if ARM.load(Relaxed) & kind != 0 && choose(2) == 1 { ARM.store(0, Relaxed); HIT.store(1, Relaxed); panic!() } }
/// Run with user code that may panic, once. Was there a panic?
fn armed(kinds: u8, f: impl FnOnce()) -> bool {
    ARM.store(kinds, Relaxed); HIT.store(0, Relaxed);
    let p = panics(f);
    ARM.store(0, Relaxed);
    check(p == (HIT.load(Relaxed) == 1), "the operation panics exactly when user code does");
    p
}

/// the payload: as `Tok`, with operations that may panic
pub struct Pk<const J: bool>(Tok<J>);
impl<const J: bool> Pk<J> { fn new(id: u8, c: Class, s: Ix) -> Self { Pk(Tok::new(id, c, s)) } }
impl<const J: bool> Drop for Pk<J> { fn drop(&mut self) { check(*self.0.id < 200, "a slice is dropped once"); tick(DROP) } }
impl<const J: bool> Clone for Pk<J> { fn clone(&self) -> Self { tick(CLONE); Pk(self.0.clone()) } }
fn inner<const J: bool>(p: Pk<J>) -> Tok<J> { let p = std::mem::ManuallyDrop::new(p); unsafe { std::ptr::read(&p.0) } }
impl<const J: bool> Pk<J> {
    /// (after a panic the positions a tree asks for mean nothing)
    fn split(&mut self, at: Ix) -> Self { tick(SPLIT); if HIT.load(Relaxed) == 1 { return Pk(Tok::new(150, Class::NONE, 1)); } let r = Pk(self.0.split_at(at)); tick(SPLIT); r }
    fn join(self, other: Self) -> Result<Self, (Self, Self)> {
        tick(JOIN);
        if !self.0.class.joins(other.0.class) { tick(JOIN); return Err((self, other)); }
        match inner(self).try_join(inner(other)) { Ok(t) => { let t = Pk(t); tick(JOIN); Ok(t) } Err((a, b)) => Err((Pk(a), Pk(b))) }
    }
}
impl<const J: bool> Slice<Ix> for Pk<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, at: Ix) -> Self { self.split(at) }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> { self.join(other) }
}
impl<const J: bool> Slice<PIx> for Pk<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, at: PIx) -> Self { self.split(at.0) }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> { self.join(other) }
}

/// an index whose operations may panic
#[derive(Clone, Copy, Debug)]
pub struct PIx(Ix);
impl std::ops::Add for PIx { type Output = PIx; fn add(self, o: PIx) -> PIx { tick(INDEX); PIx(self.0.wrapping_add(o.0)) } }
impl std::ops::Sub for PIx { type Output = PIx; fn sub(self, o: PIx) -> PIx { tick(INDEX); PIx(self.0.wrapping_sub(o.0)) } }
impl PartialEq for PIx { fn eq(&self, o: &PIx) -> bool { tick(INDEX); self.0 == o.0 } }
impl Eq for PIx {}
impl PartialOrd for PIx { fn partial_cmp(&self, o: &PIx) -> Option<Ordering> { tick(INDEX); self.0.partial_cmp(&o.0) } }
impl Ord for PIx { fn cmp(&self, o: &PIx) -> Ordering { tick(INDEX); self.0.cmp(&o.0) } }
impl Index for PIx { const ZERO: Self = PIx(0); }

pub trait Idx: Index { fn of(x: Ix) -> Self; fn to(self) -> Ix; }
impl Idx for Ix { fn of(x: Ix) -> Self { x } fn to(self) -> Ix { self } }
impl Idx for PIx { fn of(x: Ix) -> Self { PIx(x) } fn to(self) -> Ix { self.0 } }

/// a cursor whose operations may panic
struct PCur(Rec);
impl Cursor for PCur {
    fn new_empty() -> Self { tick(CURSOR); PCur(Rec::new_empty()) }
    fn prepend_to_path(&mut self, p: PathComponent) { tick(CURSOR); self.0.prepend_to_path(p) }
    type PathIter = PIter;
    fn into_path(self) -> PIter { tick(CURSOR); PIter(self.0.into_path()) }
}
struct PIter(RecIter);
impl Iterator for PIter { type Item = PathComponent; fn next(&mut self) -> Option<PathComponent> { tick(CURSOR); self.0.next() } }

/// the tree denotes the list
fn intact<I: Idx, P, const M: usize, const J: bool>(t: &RleTree<I, Pk<J>, P, M>, l: &List) where Pk<J>: Slice<I>, P: RleTreeConfig<I, Pk<J>, M> {
    let mut k = 0; let mut pos: Ix = 0;
    for e in t.iter(..) {
        check(k < l.n, "a tree that was not being changed is intact");
        let r = e.range();
        check(r.start.to() == pos, "a tree that was not being changed is intact"); pos += l.runs[k].size;
        check(r.end.to() == pos, "a tree that was not being changed is intact");
        l.runs[k].matches(&e.slice().0);
        k += 1;
    }
    check(k == l.n && t.number_of_slices() == l.n && t.size().to() == pos, "a tree that was not being changed is intact");
}
fn read<const J: bool>(s: &Pk<J>) { check(*s.0.id < 200, "a slice is readable"); }
/// every query, whatever it finds: no memory may be misused
fn poke<I: Idx, P, const M: usize, const J: bool>(t: &RleTree<I, Pk<J>, P, M>, l: &List) where Pk<J>: Slice<I>, P: RleTreeConfig<I, Pk<J>, M> {
    panics(|| { t.size(); t.number_of_slices(); });
    panics(|| { for e in t.iter(..) { e.range(); e.size(); read(e.slice()); } });
    panics(|| { let mut i = t.iter(..); while let Some(e) = i.next_back() { read(e.slice()); } });
    for k in 0..l.n { let s = I::of(l.start(k)); panics(|| { let e = t.get(s); e.range(); read(e.slice()); }); }
    let mid = I::of(l.start(l.n / 2));
    panics(|| { let _: Rec = t.cursor_to(mid); });
}

type Rt<I, P, const M: usize, const J: bool> = RleTree<I, Pk<J>, P, M>;
fn start<I: Idx, P, const M: usize, const J: bool>(n: usize) -> (Rt<I, P, M, J>, List) where Pk<J>: Slice<I>, P: RleTreeConfig<I, Pk<J>, M> + SupportsInsert<I, Pk<J>, M> {
    let mut l = List::new();
    let mut t: Rt<I, P, M, J> = RleTree::new_empty();
    let front = choose(2);
    for i in 0..n {
        let s = if n > 4 { 2 } else { size() };
        let c = if J { Class { l: 2, r: 1, s: 1 } } else { Class::NONE };
        let g = if front == 1 { 0 } else { l.n };
        t.insert(I::of(l.start(g)), Pk::new(i as u8, c, s), I::of(s));
        l.insert(At::Gap(g), Run::new(i as u8, c, s));
    }
    (t, l)
}
fn at<const J: bool>(l: &List) -> (At, Class) {
    let at = l.any_at(true);
    let c = if J { Class { l: choose(2) as u8, r: 2 * choose(2) as u8, s: 1 } } else { Class::NONE };
    if J { assume(!l.joins_both(at, c)); }
    (at, c)
}

/// an insertion that panics, then anything else (also another insertion, if `again`)
fn insertion<I: Idx, P, const M: usize, const J: bool>(n: usize, kinds: u8, again: bool) where Pk<J>: Slice<I>, P: RleTreeConfig<I, Pk<J>, M> + SupportsInsert<I, Pk<J>, M> {
    let live0 = live();
    let (mut t, l) = start::<I, P, M, J>(n);
    let (a, c) = at::<J>(&l);
    let s = size();
    let pos = l.pos(a);
    let hit = armed(kinds, || if kinds & CURSOR != 0 { let h = any_hint(2); let _: PCur = t.insert_with_cursor(PCur(h), I::of(pos), Pk::new(100, c, s), I::of(s)); } else { t.insert(I::of(pos), Pk::new(100, c, s), I::of(s)) });
    if hit { cover(1); } else { cover(2); }
    poke(&t, &l);
    if again {
        let k = choose(l.n + 1);
        let at = l.start(k);
        let c = if J { Class { l: 0, r: 0, s: 0 } } else { Class::NONE };
        panics(|| t.insert(I::of(at), Pk::new(101, c, 5), I::of(5)));
        poke(&t, &l);
    }
    panics(|| drop(t));
    if !hit { check(live() == live0, "everything is freed when nothing panicked"); }
}
/// insertion into a copy-on-write tree that shares everything with a clone
fn cow<I: Idx, const M: usize, const J: bool>(n: usize, kinds: u8, again: bool) where Pk<J>: Slice<I>, AllowCow: RleTreeConfig<I, Pk<J>, M> + SupportsInsert<I, Pk<J>, M> {
    let live0 = live();
    let (mut t, l) = start::<I, AllowCow, M, J>(n);
    let u = t.clone();
    let (a, c) = at::<J>(&l);
    let s = size();
    let pos = l.pos(a);
    let hit = armed(kinds, || t.insert(I::of(pos), Pk::new(100, c, s), I::of(s)));
    if hit { cover(1); } else { cover(2); }
    intact(&u, &l);
    poke(&t, &l);
    if again {
        let k = choose(l.n + 1);
        let at = l.start(k);
        panics(|| t.insert(I::of(at), Pk::new(101, Class::NONE, 5), I::of(5)));
        intact(&u, &l);
        poke(&t, &l);
    }
    if choose(2) == 0 { panics(|| drop(t)); intact(&u, &l); drop(u); } else { drop(u); poke(&t, &l); panics(|| drop(t)); }
    if !hit { check(live() == live0, "everything is freed when nothing panicked"); }
}
/// an insertion into a tree with references
fn refs<const M: usize, const J: bool>(n: usize, kinds: u8) {
    let live0 = live();
    let (mut t, l) = start::<Ix, AllowSliceRefs, M, J>(n);
    let g = [choose(n), choose(n)];
    let r = [t.get(l.start(g[0])).make_ref(), t.get(l.start(g[1])).make_ref()];
    let (a, c) = at::<J>(&l);
    let s = size();
    let pos = l.pos(a);
    let how = choose(2);
    let hit = armed(kinds, || if how == 0 { t.insert(pos, Pk::new(100, c, s), s) } else { drop(t.insert_ref(pos, Pk::new(100, c, s), s)) });
    if hit { cover(1); } else { cover(2); }
    let look = |r: &SliceRef<Ix, Pk<J>, M>| {
        panics(|| { r.is_valid(); });
        panics(|| { r.can_borrow(); });
        panics(|| { r.try_range(); });
        panics(|| { r.try_cursor::<Rec>(); });
        panics(|| { if let Some(b) = r.try_borrow_slice() { read(&*b); } });
    };
    look(&r[0]); look(&r[1]);
    let r2 = r[0].clone();
    look(&r2);
    panics(|| { let e = t.get(l.start(g[0])); let x = e.make_ref(); if let Some(b) = x.try_borrow_slice() { read(&*b); }; });
    panics(|| drop(t));
    look(&r[0]); look(&r2);
    check(!r[1].is_valid(), "references are invalid once the tree is dropped");
    drop(r2);
    drop(r);
    if !hit { check(live() == live0, "everything is freed when nothing panicked"); }
}
/// a deep clone that panics
fn deep<const M: usize>(n: usize) {
    let live0 = live();
    {
        let (t, l) = start::<Ix, NoFeatures, M, false>(n);
        let hit = armed(CLONE | DROP, || drop(t.clone()));
        if hit { cover(1); } else { cover(2); }
        intact(&t, &l);
        drop(t);
        if !hit { check(live() == live0, "everything is freed when nothing panicked"); }
    }
}
/// dropping slices panics
fn dropping<P, const M: usize>(n: usize) where P: RleTreeConfig<Ix, Pk<false>, M> + SupportsInsert<Ix, Pk<false>, M> {
    let live0 = live();
    let (t, _) = start::<Ix, P, M, false>(n);
    let hit = armed(DROP, || drop(t));
    if hit { cover(1); } else { cover(2); check(live() == live0, "everything is freed when nothing panicked"); }
}
/// the last borrow ends after the tree is dropped, and dropping a slice panics
fn dropping_borrowed<const M: usize>(n: usize) {
    let (t, l) = start::<Ix, AllowSliceRefs, M, false>(n);
    let r = t.get(l.start(choose(n))).make_ref();
    let b = r.borrow_slice();
    drop(t);
    let hit = armed(DROP, || drop(b));
    if hit { cover(1); } else { cover(2); }
    check(!r.is_valid(), "the reference is invalid");
    drop(r);
}
/// dropping one of two clones, with some nodes shared and some not
fn dropping_cow<const M: usize>(n: usize) {
    let (mut t, mut l) = start::<Ix, AllowCow, M, false>(n);
    let (u, lu) = (t.clone(), l.clone());
    let g = choose(n + 1);
    t.insert(l.start(g), Pk::new(100, Class::NONE, 3), 3);
    l.insert(At::Gap(g), Run::new(100, Class::NONE, 3));
    if choose(2) == 0 {
        if armed(DROP, || drop(t)) { cover(1); } else { cover(2); }
        intact(&u, &lu); drop(u);
    } else {
        if armed(DROP, || drop(u)) { cover(1); } else { cover(2); }
        intact(&t, &l); drop(t);
    }
}
/// lookups and iteration with an index type or a cursor that panics leave the tree as it is
fn reading<const M: usize>(n: usize) {
    let (t, l) = start::<PIx, NoFeatures, M, false>(n);
    let a = l.any_at(false);
    let pos = PIx(l.pos(a));
    let what = choose(4);
    let h = any_hint(2);
    let hit = armed(INDEX | CURSOR, || match what {
        0 => { read(t.get(pos).slice()) }
        1 => { read(t.get_with_cursor(PCur(h), pos).slice()) }
        2 => { for e in t.iter(pos..) { e.range(); read(e.slice()) } }
        _ => { let _: PCur = t.cursor_to(pos); }
    });
    if hit { cover(1); } else { cover(2); }
    intact(&t, &l);
}

entries! {
    c14_split_m1_n1 => insertion::<Ix, NoFeatures, 1, false>(1, SPLIT | DROP, true);
    c14_split_m1_n4 => insertion::<Ix, NoFeatures, 1, false>(4, SPLIT | DROP, true);
    c14_split_m1_n8 => insertion::<Ix, NoFeatures, 1, false>(8, SPLIT | DROP, false);
    c14_split_m2_n5 => insertion::<Ix, NoFeatures, 2, false>(5, SPLIT | DROP, true);
    c14_join_m1_n1 => insertion::<Ix, NoFeatures, 1, true>(1, SPLIT | JOIN | DROP, true);
    c14_join_m1_n2 => insertion::<Ix, NoFeatures, 1, true>(2, SPLIT | JOIN | DROP, true);
    c14_join_m1_n5 => insertion::<Ix, NoFeatures, 1, true>(5, SPLIT | JOIN | DROP, false);
    c14_join_m2_n3 => insertion::<Ix, NoFeatures, 2, true>(3, SPLIT | JOIN | DROP, true);
    c14_join_m2_n7 => insertion::<Ix, NoFeatures, 2, true>(7, SPLIT | JOIN | DROP, false);
    c14_join_m5_n9 => insertion::<Ix, NoFeatures, 5, true>(9, SPLIT | JOIN | DROP, true);
    c14_index_m1_n1 => insertion::<PIx, NoFeatures, 1, false>(1, INDEX, true);
    c14_index_m1_n3 => insertion::<PIx, NoFeatures, 1, false>(3, INDEX, true);
    c14_index_m1_n7 => insertion::<PIx, NoFeatures, 1, false>(7, INDEX, false);
    c14_index_m2_n4 => insertion::<PIx, NoFeatures, 2, false>(4, INDEX, true);
    c14_index_m2_n14 => insertion::<PIx, NoFeatures, 2, false>(14, INDEX, false);
    c14_index_join_m1_n3 => insertion::<PIx, NoFeatures, 1, true>(3, INDEX, true);
    c14_index_refs_m1_n4 => insertion::<PIx, AllowSliceRefs, 1, false>(4, INDEX, true);
    c14_cursor_m1_n4 => insertion::<Ix, NoFeatures, 1, false>(4, CURSOR, true);
    c14_cow_m1_n1 => cow::<Ix, 1, false>(1, SPLIT | CLONE | DROP, true);
    c14_cow_m1_n3 => cow::<Ix, 1, false>(3, SPLIT | CLONE | DROP, true);
    c14_cow_m1_n6 => cow::<Ix, 1, false>(6, SPLIT | CLONE | DROP, false);
    c14_cow_m2_n5 => cow::<Ix, 2, false>(5, SPLIT | CLONE | DROP, false);
    c14_cow_m2_n14 => cow::<Ix, 2, false>(14, SPLIT | CLONE | DROP, false);
    c14_cow_join_m1_n3 => cow::<Ix, 1, true>(3, SPLIT | JOIN | CLONE | DROP, true);
    c14_cow_index_m1_n3 => cow::<PIx, 1, false>(3, INDEX, true);
    c14_cow_index_m1_n7 => cow::<PIx, 1, false>(7, INDEX, false);
    c14_refs_m1_n2 => refs::<1, false>(2, SPLIT | DROP);
    c14_refs_m1_n5 => refs::<1, false>(5, SPLIT | DROP);
    c14_refs_join_m1_n3 => refs::<1, true>(3, SPLIT | JOIN | DROP);
    c14_refs_join_m2_n5 => refs::<2, true>(5, SPLIT | JOIN | DROP);
    c14_deep_m1_n7 => deep::<1>(7);
    c14_deep_m2_n14 => deep::<2>(14);
    c14_drop_m1_n7 => dropping::<NoFeatures, 1>(7);
    c14_drop_cow_m1_n7 => dropping::<AllowCow, 1>(7);
    c14_drop_refs_m1_n7 => dropping::<AllowSliceRefs, 1>(7);
    c14_drop_m5_n13 => dropping::<NoFeatures, 5>(13);
    c14_drop_shared_m1_n7 => dropping_cow::<1>(7);
    c14_drop_borrowed_m1_n4 => dropping_borrowed::<1>(4);
    c14_read_m1_n5 => reading::<1>(5);
}
