//! C19: Constant is a lawful run.
use crate::{entries, model::{Ix, Rec}, sv::*};
use sherman::param::*;
use sherman::{Constant, Cursor, RleTree, Slice};

/// a value that owns memory
#[derive(Clone, Debug)]
pub struct Bx(Box<u8>);
impl PartialEq for Bx { fn eq(&self, o: &Bx) -> bool { *self.0 == *o.0 } }
/// a value that is not equal to itself when it is zero
#[derive(Clone, Copy, Debug)]
pub struct Nan(u8);
impl PartialEq for Nan { fn eq(&self, o: &Nan) -> bool { self.0 != 0 && self.0 == o.0 } }
/// equality that ignores part of the value
#[derive(Clone, Copy, Debug)]
pub struct Part { v: u8, tag: u8 }
impl PartialEq for Part { fn eq(&self, o: &Part) -> bool { self.v == o.v } }
pub trait Val: Clone + PartialEq + 'static { fn of(x: u8) -> Self; fn raw(&self) -> u8; fn tag(&self) -> u8 { 0 } fn set(&mut self, _: u8) {} }
impl Val for Bx { fn of(x: u8) -> Self { Bx(Box::new(x)) } fn raw(&self) -> u8 { *self.0 } }
impl Val for u8 { fn of(x: u8) -> Self { x } fn raw(&self) -> u8 { *self } }
impl Val for Nan { fn of(x: u8) -> Self { Nan(x) } fn raw(&self) -> u8 { self.0 } }
impl Val for Part { fn of(x: u8) -> Self { Part { v: x, tag: 0 } } fn raw(&self) -> u8 { self.v } fn tag(&self) -> u8 { self.tag } fn set(&mut self, t: u8) { self.tag = t } }

fn laws<T: Val>() {
    let live0 = live();
    {
        let (a, b) = (sym8(), sym8());
        let i = sym16();
        let (mut x, mut y) = (T::of(a), T::of(b));
        x.set(1); y.set(2);
        let eq = x == y;
        let mut c = Constant(x);
        let d: Constant<T> = Slice::<u16>::split_at(&mut c, i);
        check(c.0.raw() == a && d.0.raw() == a && c.0.tag() == d.0.tag(), "splitting gives two slices like the original");
        check(c.0.raw() == a, "splitting leaves the original");
        match Slice::<u16>::try_join(c, Constant(y)) {
            Ok(j) => { check(eq, "only equal values join"); check(j.0.raw() == a, "joining yields the value"); }
            Err((l, r)) => { check(!eq, "equal values join"); check(l.0.raw() == a && r.0.raw() == b && (l.0.tag() == r.0.tag() || (l.0.tag(), r.0.tag()) == (1, 2)), "a refused join gives both back in order"); }
        }
        check(d.0.raw() == a, "the right half is independent");
        check(<Constant<T> as Slice<u16>>::MAY_JOIN, "constants may join");
        log(a as u64);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

const CAP: usize = 40;
/// the array, as runs of equal values
#[derive(Clone, Copy)]
struct Runs { n: usize, size: [Ix; CAP], val: [u8; CAP] }
impl Runs {
    fn start(&self, k: usize) -> Ix { let mut s = 0; let mut i = 0; while i < k { s += self.size[i]; i += 1; } s }
    fn add(&mut self, k: usize, s: Ix, v: u8) { let mut i = self.n; while i > k { self.size[i] = self.size[i - 1]; self.val[i] = self.val[i - 1]; i -= 1; } self.size[k] = s; self.val[k] = v; self.n += 1; }
    fn del(&mut self, k: usize) { let mut i = k; while i + 1 < self.n { self.size[i] = self.size[i + 1]; self.val[i] = self.val[i + 1]; i += 1; } self.n -= 1; }
}
fn same<T: Val, P: RleTreeConfig<Ix, Constant<T>, M>, const M: usize>(t: &RleTree<Ix, Constant<T>, P, M>, r: &Runs) {
    let mut k = 0; let mut pos: Ix = 0;
    for e in t.iter(..) {
        check(k < r.n, "no two adjacent runs are equal");
        check(e.range().start == pos, "start of a run"); pos += r.size[k];
        check(e.range().end == pos && e.size() == r.size[k], "a run covers the positions that have its value");
        check(e.slice().0.raw() == r.val[k], "the value of a run");
        log(e.size() as u64);
        k += 1;
    }
    check(k == r.n && t.number_of_slices() == r.n && t.size() == pos, "every run of equal values is there");
}
/// an insertion anywhere of any value
fn insert<T: Val, P: RleTreeConfig<Ix, Constant<T>, M> + SupportsInsert<Ix, Constant<T>, M>, const M: usize>(t: &mut RleTree<Ix, Constant<T>, P, M>, r: &mut Runs, max: Ix, inner: bool) {
    let (s, v) = (range(16, 1, max as u64) as Ix, range(8, 0, 2) as u8);
    let c = choose(2 * r.n + 1);
    if c <= r.n {
        let p = r.start(c);
        t.insert(p, Constant(T::of(v)), s);
        r.add(c, s, v);
        if c > 0 && r.val[c - 1] == v { r.size[c - 1] += s; r.del(c); }
        else if c + 1 < r.n && r.val[c + 1] == v { r.size[c + 1] += s; r.del(c); }
    } else {
        let k = c - r.n - 1;
        let d = range(16, 1, 0xfff0) as Ix; assume(d < r.size[k]);
        // (inserting the value of the run that is split joins both halves: see `inside`)
        assume((r.val[k] == v) == inner);
        let p = r.start(k) + d;
        t.insert(p, Constant(T::of(v)), s);
        if inner { r.size[k] += s; } else { let rest = r.size[k] - d; r.size[k] = d; r.add(k + 1, rest, r.val[k]); r.add(k + 1, s, v); }
    }
}
fn start<T: Val, P: RleTreeConfig<Ix, Constant<T>, M> + SupportsInsert<Ix, Constant<T>, M>, const M: usize>(n: usize) -> (RleTree<Ix, Constant<T>, P, M>, Runs) {
    let mut r = Runs { n: 0, size: [0; CAP], val: [0; CAP] };
    let mut t: RleTree<Ix, Constant<T>, P, M> = RleTree::new_empty();
    let pat = choose(2);
    for i in 0..n {
        let (s, v) = (range(16, 1, 0xff) as Ix, 1 + (i % 2) as u8);
        let g = if pat == 0 { i } else { 0 };
        t.insert(r.start(g), Constant(T::of(v)), s);
        r.add(g, s, v);
    }
    (t, r)
}
fn history<T: Val, P: RleTreeConfig<Ix, Constant<T>, M> + SupportsInsert<Ix, Constant<T>, M>, const M: usize>(n: usize, k: usize) {
    let live0 = live();
    {
        let (mut t, mut r) = start::<T, P, M>(n);
        for _ in 0..k { insert(&mut t, &mut r, 0xff, false); }
        same(&t, &r);
        if r.n > 0 {
            let x = sym16(); assume(x < t.size());
            let e = t.get(x);
            let mut g = 0; let mut pos = 0; let mut v = 0;
            while g < r.n { if (pos <= x) & (x < pos + r.size[g]) { v = r.val[g]; } pos += r.size[g]; g += 1; }
            check(e.slice().0.raw() == v, "the value at a position");
        }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// an insertion inside a run, of the run's own value
fn inside<T: Val, P: RleTreeConfig<Ix, Constant<T>, M> + SupportsInsert<Ix, Constant<T>, M>, const M: usize>(n: usize) {
    let live0 = live();
    {
        let (mut t, mut r) = start::<T, P, M>(n);
        let ok = !panics(|| insert(&mut t, &mut r, 0xff, true));
        check(ok, "an insertion of a run's own value inside it does not panic");
        same(&t, &r);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

entries! {
    c19_laws_u8 => laws::<u8>();
    c19_laws_boxed => laws::<Bx>();
    c19_laws_nan => laws::<Nan>();
    c19_laws_part => laws::<Part>();
    c19_m1_k3 => history::<u8, NoFeatures, 1>(0, 3);
    c19_m1_k4 => history::<u8, NoFeatures, 1>(0, 4);
    c19_m1_n3_k2 => history::<Bx, NoFeatures, 1>(3, 2);
    c19_m1_n8_k1 => history::<Bx, NoFeatures, 1>(8, 1);
    c19_m1_n14_k1 => history::<u8, NoFeatures, 1>(14, 1);
    c19_m2_n6_k2 => history::<u8, NoFeatures, 2>(6, 2);
    c19_m2_n12_k1 => history::<Bx, NoFeatures, 2>(12, 1);
    c19_m5_n11_k1 => history::<u8, NoFeatures, 5>(11, 1);
    c19_cow_m1_n5_k1 => history::<Bx, AllowCow, 1>(5, 1);
    c19_refs_m1_n5_k1 => history::<Bx, AllowSliceRefs, 1>(5, 1);
    c19_refs_m2_n7_k1 => history::<Bx, AllowSliceRefs, 2>(7, 1);
    c19_inside_m1_n1 => inside::<u8, NoFeatures, 1>(1);
    c19_inside_m1_n5 => inside::<Bx, NoFeatures, 1>(5);
    c19_inside_m2_n7 => inside::<Bx, NoFeatures, 2>(7);
}
