//! C15: range bounds have the semantics of the ranges they describe.
use crate::{entries, sv::*};
use sherman::range::{EndBound, RangeBounds, StartBound};
use std::fmt::Debug;
use std::ops::Bound;

pub trait Val: Ord + Copy + Debug + 'static { fn any() -> Self; const MIN: Self; fn raw(self) -> u64; }
impl Val for u16 { fn any() -> u16 { sym16() } const MIN: u16 = 0; fn raw(self) -> u64 { self as u64 } }
impl Val for i16 { fn any() -> i16 { sym16() as i16 } const MIN: i16 = i16::MIN; fn raw(self) -> u64 { self as u16 as u64 } }
impl Val for u8 { fn any() -> u8 { sym8() } const MIN: u8 = 0; fn raw(self) -> u64 { self as u64 } }
impl Val for u64 { fn any() -> u64 { sym(64) } const MIN: u64 = 0; fn raw(self) -> u64 { self } }

/// compares with a type that is not itself the bounds' type
#[derive(Clone, Copy)]
struct Other(u16);
impl PartialEq<Other> for u16 { fn eq(&self, o: &Other) -> bool { *self == o.0 } }
impl PartialOrd<Other> for u16 { fn partial_cmp(&self, o: &Other) -> Option<std::cmp::Ordering> { self.partial_cmp(&o.0) } }
impl PartialEq<u16> for Other { fn eq(&self, o: &u16) -> bool { self.0 == *o } }
impl PartialOrd<u16> for Other { fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> { self.0.partial_cmp(o) } }

/// what a range means: the bounds, as plain values
#[derive(Clone, Copy)]
struct Spec<T> { lo: Option<T>, hi: Option<(T, bool)> }
impl<T: Val> Spec<T> {
    fn has(&self, x: T) -> bool { (match self.lo { None => true, Some(l) => l <= x }) & (match self.hi { None => true, Some((h, true)) => x <= h, Some((h, false)) => x < h }) }
    /// the least value it could contain
    fn least(&self) -> T { self.lo.unwrap_or(T::MIN) }
}
fn meaning<T: Val, R: RangeBounds<T> + ?Sized>(r: &R, s: Spec<T>) {
    match (r.start_bound(), s.lo) { (StartBound::Included(x), Some(y)) => check(*x == y, "start bound"), (StartBound::Unbounded, None) => {} _ => fail("kind of the start bound") }
    match (r.end_bound(), s.hi) {
        (EndBound::Included(x), Some((y, true))) | (EndBound::Excluded(x), Some((y, false))) => check(*x == y, "end bound"),
        (EndBound::Unbounded, None) => {}
        _ => fail("kind of the end bound"),
    }
    let x = T::any();
    check(r.contains(&x) == s.has(x), "contains holds exactly for the values the range contains");
    log(r.contains(&x) as u64); log(x.raw());
    let none = match (s.lo, s.hi) { (Some(l), Some((h, true))) => l > h, (Some(l), Some((h, false))) => l >= h, _ => false };
    check(r.starts_after_end() == none, "starts_after_end holds exactly when both ends are bounded and nothing can lie between them");
    check(r.is_empty_naive() == none, "is_empty_naive holds exactly when both ends are bounded and nothing can lie between them");
    if none { check(!r.contains(&x), "an empty range contains nothing"); }
    else if !matches!((s.lo, s.hi), (None, Some((_, false)))) { check(r.contains(&s.least()), "a range that is not empty contains its start"); }
    // cloned bounds describe the same range
    let c = (r.start_bound().cloned(), r.end_bound().cloned());
    check(c.contains(&x) == s.has(x), "cloned bounds mean the same");
    check(c.starts_after_end() == none, "cloned bounds mean the same");
    let b = (r.start_bound(), r.end_bound());
    check(b.contains(&x) == s.has(x), "bounds by reference mean the same");
    check((&&r).contains(&x) == s.has(x), "a reference to a range means the same");
    check((&r).is_empty_naive() == none, "a reference to a range means the same");
    cover(1);
}
fn std_agrees<T: Val, R: RangeBounds<T> + std::ops::RangeBounds<T>>(r: &R) {
    let x = T::any();
    check(RangeBounds::contains(r, &x) == std::ops::RangeBounds::contains(r, &x), "contains agrees with the standard library's");
}
fn each<T: Val>() where std::ops::RangeInclusive<T>: DoubleEndedIterator<Item = T> {
    let (a, b) = (T::any(), T::any());
    let at = |lo: bool, hi: Option<bool>| Spec { lo: if lo { Some(a) } else { None }, hi: hi.map(|i| (b, i)) };
    match choose(16) {
        0 => { meaning(&(a..b), at(true, Some(false))); std_agrees(&(a..b)); }
        1 => { meaning(&(a..=b), at(true, Some(true))); std_agrees(&(a..=b)); }
        2 => { meaning(&(a..), at(true, None)); std_agrees(&(a..)); }
        3 => { meaning(&(..b), at(false, Some(false))); std_agrees(&(..b)); }
        4 => { meaning(&(..=b), at(false, Some(true))); std_agrees(&(..=b)); }
        5 => { meaning::<T, _>(&(..), at(false, None)); std_agrees::<T, _>(&(..)); }
        6 => meaning::<T, _>(&(&a..&b), at(true, Some(false))),
        7 => meaning::<T, _>(&(&a..=&b), at(true, Some(true))),
        8 => meaning::<T, _>(&(&a..), at(true, None)),
        9 => meaning::<T, _>(&(..&b), at(false, Some(false))),
        10 => meaning::<T, _>(&(..=&b), at(false, Some(true))),
        11 => { meaning(&(StartBound::Included(a), EndBound::Included(b)), at(true, Some(true))); meaning(&(StartBound::Included(a), EndBound::Excluded(b)), at(true, Some(false))); }
        12 => { meaning(&(StartBound::Included(a), EndBound::Unbounded), at(true, None)); meaning(&(StartBound::Unbounded, EndBound::Included(b)), at(false, Some(true))); }
        13 => { meaning(&(StartBound::Unbounded, EndBound::Excluded(b)), at(false, Some(false))); meaning::<T, _>(&(StartBound::<T>::Unbounded, EndBound::<T>::Unbounded), at(false, None)); }
        14 => { meaning::<T, _>(&(StartBound::Included(&a), EndBound::Excluded(&b)), at(true, Some(false))); meaning::<T, _>(&(StartBound::Included(&a), EndBound::Included(&b)), at(true, Some(true))); }
        _ => {
            // an inclusive range that has been iterated to its end contains nothing any more
            assume(a <= b);
            let mut r = a..=b;
            match choose(3) {
                0 => { assume(a == b); r.next(); }
                1 => { assume(a == b); r.next_back(); }
                _ => { assume(b.raw().wrapping_sub(a.raw()) <= 1); let _ = r.try_fold((), |_, _| Some(())); }
            }
            let x = T::any();
            check(!RangeBounds::contains(&r, &x), "an inclusive range iterated to its end contains nothing");
            check(RangeBounds::starts_after_end(&r) && RangeBounds::is_empty_naive(&r), "an inclusive range iterated to its end is empty");
            std_agrees(&r);
            cover(1);
        }
    }
}
fn part<T: Val>(how: usize, a: T, b: T) -> (StartBound<T>, EndBound<T>, Spec<T>) {
    match how {
        0 => (StartBound::Included(a), EndBound::Included(b), Spec { lo: Some(a), hi: Some((b, true)) }),
        1 => (StartBound::Included(a), EndBound::Excluded(b), Spec { lo: Some(a), hi: Some((b, false)) }),
        2 => (StartBound::Included(a), EndBound::Unbounded, Spec { lo: Some(a), hi: None }),
        3 => (StartBound::Unbounded, EndBound::Included(b), Spec { lo: None, hi: Some((b, true)) }),
        4 => (StartBound::Unbounded, EndBound::Excluded(b), Spec { lo: None, hi: Some((b, false)) }),
        _ => (StartBound::Unbounded, EndBound::Unbounded, Spec { lo: None, hi: None }),
    }
}
fn overlaps<T: Val>() {
    let (s1, e1, p) = part(choose(6), T::any(), T::any());
    let (s2, e2, q) = part(choose(6), T::any(), T::any());
    let o = (s1, e1).overlaps_naive((s2, e2));
    check((s2, e2).overlaps_naive((s1, e1)) == o, "overlapping is symmetric");
    check((&(s1, e1)).overlaps_naive(&(s2, e2)) == o, "references overlap when the ranges do");
    log(o as u64);
    let shared = (p.lo.is_none() && q.lo.is_none()) || (p.hi.is_none() && q.hi.is_none());
    let x = T::any();
    let both = p.has(x) & q.has(x);
    let empty = |s: &Spec<T>| match (s.lo, s.hi) { (Some(l), Some((h, true))) => l > h, (Some(l), Some((h, false))) => l >= h, _ => false };
    if empty(&p) || empty(&q) { check(!o, "an empty range overlaps nothing"); }
    if both { check(o, "ranges with a value in both overlap"); }
    if o && !shared { let (a, b) = (p.least(), q.least()); let m = if a < b { b } else { a }; check(p.has(m) & q.has(m), "ranges that overlap have a value in both"); }
    cover(1);
}
/// the ranges of the standard library through overlaps_naive, also mixed with references
fn mixed() {
    let (a, b, c, d, x) = (sym16(), sym16(), sym16(), sym16(), sym16());
    let o = match choose(6) {
        0 => ((a..b).overlaps_naive(c..d), a <= x && x < b && c <= x && x < d, a.max(c) < b.min(d) && a < b && c < d),
        1 => ((a..=b).overlaps_naive(c..d), a <= x && x <= b && c <= x && x < d, a.max(c) <= b && a.max(c) < d && a <= b && c < d),
        2 => ((a..).overlaps_naive(..d), a <= x && x < d, a < d),
        3 => ((..=b).overlaps_naive(&(c..)), x <= b && c <= x, c <= b),
        4 => (RangeBounds::<u16>::overlaps_naive(&(&a..&b), ..), a <= x && x < b, a < b),
        _ => (RangeBounds::<u16>::overlaps_naive(&(..), &(&a..=&b)), a <= x && x <= b, a <= b),
    };
    if o.1 { check(o.0, "ranges with a value in both overlap"); }
    check(o.0 == o.2, "ranges overlap exactly when some value lies in both");
    cover(1);
}
fn foreign() {
    let (a, b, x) = (sym16(), sym16(), Other(sym16()));
    check((a..b).contains(&x) == (a <= x.0 && x.0 < b), "contains compares with other types");
    check((a..=b).contains(&x) == (a <= x.0 && x.0 <= b), "contains compares with other types");
    check((..b).contains(&x) == (x.0 < b), "contains compares with other types");
    cover(1);
}
/// an order in which not everything is comparable
#[derive(Clone, Copy, PartialEq)]
struct Part(u8, u8);
impl PartialOrd for Part { fn partial_cmp(&self, o: &Part) -> Option<std::cmp::Ordering> { let (a, b) = (self.0.cmp(&o.0), self.1.cmp(&o.1)); if a == b { Some(a) } else if a.is_eq() { Some(b) } else if b.is_eq() { Some(a) } else { None } } }
fn partial() {
    let v = || Part(sym8(), sym8());
    let (a, b, x) = (v(), v(), v());
    let le = |p: Part, q: Part| p.0 <= q.0 && p.1 <= q.1;
    check((a..=b).contains(&x) == (le(a, x) && le(x, b)), "contains in a partial order");
    check((a..b).contains(&x) == (le(a, x) && le(x, b) && x != b), "contains in a partial order");
    check((a..=b).starts_after_end() == (le(b, a) && a != b), "starts_after_end in a partial order");
    check((a..b).starts_after_end() == le(b, a), "starts_after_end in a partial order");
    cover(1);
}

entries! {
    c15_each_u16 => each::<u16>();
    c15_each_i16 => each::<i16>();
    c15_each_u8 => each::<u8>();
    c15_each_u64 => each::<u64>();
    c15_overlaps_u16 => overlaps::<u16>();
    c15_overlaps_i16 => overlaps::<i16>();
    c15_overlaps_u64 => overlaps::<u64>();
    c15_mixed => mixed();
    c15_foreign => foreign();
    c15_partial => partial();
}
