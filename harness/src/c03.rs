//! C03: out-of-range calls panic, and a refused call changes nothing.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::range::{EndBound, StartBound};
use sherman::{Index, RleTree, Slice};

fn refused<P, const M: usize>(n: usize, what: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let live0 = live();
    {
        let (mut t, mut l) = grow::<P, M>(n, choose(2));
        let total = l.total();
        match what {
            0 => { let i = sym16(); check(panics(|| { t.get(i); }) == (i >= total), "get panics exactly when the index is not below the size"); }
            1 => { let i = sym16(); check(panics(|| { let _: Rec = t.cursor_to(i); }) == (i >= total), "cursor_to panics exactly when the index is not below the size"); }
            2 => {
                let (i, s) = (sym16(), sym16());
                assume(s <= 0x7fff);
                let p = panics(|| t.insert(i, Tok::new(50, Class::NONE, s), s));
                check(p == (i > total || s == 0), "insert panics exactly when the index exceeds the size or the size is zero");
                if !p { cover(2); return; }
            }
            3 => {
                let s = if choose(2) == 0 { StartBound::Unbounded } else { StartBound::Included(sym16()) };
                let e = match choose(3) { 0 => EndBound::Unbounded, 1 => EndBound::Included(sym16()), _ => EndBound::Excluded(sym16()) };
                let bad = match (s, e) {
                    (StartBound::Unbounded, EndBound::Unbounded) => false,
                    (StartBound::Unbounded, EndBound::Included(e)) => e >= total,
                    (StartBound::Unbounded, EndBound::Excluded(e)) => e > total,
                    (StartBound::Included(s), EndBound::Unbounded) => s >= total,
                    (StartBound::Included(s), EndBound::Included(e)) => s > e || e >= total,
                    (StartBound::Included(s), EndBound::Excluded(e)) => s >= e || e > total,
                };
                check(panics(|| { t.iter((s, e)); }) == bad, "iter panics exactly when its range is out of the documented limits");
            }
            _ => {
                let s = sym16();
                let r: Option<Tree<P, M>> = catch(|| RleTree::new(Tok::new(51, Class::NONE, s), s));
                check(r.is_none() == (s == 0), "new panics exactly on size zero");
            }
        }
        same(&t, &l);
        ins(&mut t, &mut l, 60);
        same(&t, &l);
        cover(1);
    }
    check(live() == live0, "everything is freed, the refused slice included");
}

/// A signed index: positions below zero are out of range as well.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Signed(i16);
impl std::ops::Add for Signed { type Output = Signed; fn add(self, o: Signed) -> Signed { Signed(self.0 + o.0) } }
impl std::ops::Sub for Signed { type Output = Signed; fn sub(self, o: Signed) -> Signed { Signed(self.0 - o.0) } }
impl Index for Signed { const ZERO: Self = Signed(0); }
struct Plain;
impl Slice<Signed> for Plain { const MAY_JOIN: bool = false; fn split_at(&mut self, _: Signed) -> Plain { Plain } }
fn signed<const M: usize>(n: usize) {
    let mut t: RleTree<Signed, Plain, NoFeatures, M> = RleTree::new_empty();
    let mut total = 0i16;
    for _ in 0..n { let s = range(16, 1, 0x3ff) as i16; t.insert(Signed(total), Plain, Signed(s)); total += s; }
    let i = sym16() as i16;
    let out = i < 0 || i >= total;
    match choose(4) {
        0 => check(panics(|| { t.get(Signed(i)); }) == out, "get panics below zero and beyond the end"),
        1 => check(panics(|| { let _: Rec = t.cursor_to(Signed(i)); }) == out, "cursor_to panics below zero and beyond the end"),
        2 => check(panics(|| { t.iter(Signed(i)..); }) == out, "iter panics below zero and beyond the end"),
        _ => if i <= 0 { check(panics(|| t.insert(Signed(0), Plain, Signed(i))), "insert panics on a size that is not positive") },
    }
    check(t.size() == Signed(total) && t.number_of_slices() == n, "nothing changed");
    cover(1);
}

entries! {
    c03_get_m1 => refused::<NoFeatures, 1>(choose(4), 0);
    c03_cursor_m1 => refused::<NoFeatures, 1>(choose(4), 1);
    c03_insert_m1 => refused::<NoFeatures, 1>(choose(4), 2);
    c03_iter_m1 => refused::<NoFeatures, 1>(choose(4), 3);
    c03_new_m1 => refused::<NoFeatures, 1>(choose(2), 4);
    c03_get_m2_n7 => refused::<NoFeatures, 2>(7, 0);
    c03_iter_m2_n7 => refused::<NoFeatures, 2>(7, 3);
    c03_insert_m1_n8 => refused::<NoFeatures, 1>(8, 2);
    c03_insert_cow_m1 => refused::<AllowCow, 1>(choose(4), 2);
    c03_get_cow_m1 => refused::<AllowCow, 1>(choose(4), 0);
    c03_iter_cow_m1 => refused::<AllowCow, 1>(choose(4), 3);
    c03_cursor_cow_m1 => refused::<AllowCow, 1>(choose(4), 1);
    c03_insert_refs_m1 => refused::<AllowSliceRefs, 1>(choose(4), 2);
    c03_get_refs_m1 => refused::<AllowSliceRefs, 1>(choose(4), 0);
    c03_iter_refs_m1 => refused::<AllowSliceRefs, 1>(choose(4), 3);
    c03_new_refs_m1 => refused::<AllowSliceRefs, 1>(choose(2), 4);
    c03_signed_m1 => signed::<1>(choose(4));
    c03_signed_m2 => signed::<2>(6);
}
