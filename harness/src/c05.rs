//! C05: cursor hints never change any result.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{BoundedCursor, Cursor, RleTree};

/// a lookup with an arbitrary hint
fn lookup<P, const M: usize>(n: usize, h: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let (t, l) = grow::<P, M>(n, choose(3));
    let hint = any_hint(h);
    let at = l.any_at(false);
    let k = List::run_at(at);
    let e = t.get_with_cursor(hint, l.pos(at));
    let r = e.range();
    check(r.start == l.start(k), "hinted get: start");
    check(r.end == l.start(k) + l.runs[k].size, "hinted get: end");
    l.runs[k].matches(e.slice());
    log(r.end as u64);
    cover(1);
}
/// iteration with an arbitrary hint, from either end, from and to arbitrary places
fn iterate<P, const M: usize>(n: usize, h: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let (t, l) = grow::<P, M>(n, choose(3));
    let hint = any_hint(h);
    if choose(2) == 0 {
        let at = l.any_at(false);
        let mut k = List::run_at(at);
        for e in t.iter_with_cursor(hint, l.pos(at)..) { check(k < l.n, "hinted iteration: not more runs"); check(e.range().start == l.start(k), "hinted iteration: start"); check(e.range().end == l.start(k + 1), "hinted iteration: end"); l.runs[k].matches(e.slice()); k += 1; }
        check(k == l.n, "hinted iteration: not fewer runs");
    } else {
        let at = l.any_at(true);
        let mut k = match at { At::Gap(k) => k, At::In(k, _) => k + 1 };
        if k == 0 { return; }
        for e in t.iter_with_cursor(hint, ..l.pos(at)).rev() { check(k > 0, "hinted iteration from the back: not more runs"); k -= 1; check(e.range().start == l.start(k), "hinted iteration from the back: start"); check(e.range().end == l.start(k + 1), "hinted iteration from the back: end"); l.runs[k].matches(e.slice()); }
        check(k == 0, "hinted iteration from the back: not fewer runs");
    }
    cover(1);
}
/// an insertion with an arbitrary hint; the tree and the cursor given back must not depend on it
fn insert<P, const M: usize>(n: usize, h: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let live0 = live();
    {
        let (mut t, mut l) = grow::<P, M>(n, choose(3));
        let at = l.any_at(true);
        let hint = any_hint(h);
        let s = size();
        let c = t.insert_with_cursor(hint, l.pos(at), Tok::new(100, Class::NONE, s), s);
        let k = l.insert(at, Run::new(100, Class::NONE, s));
        same(&t, &l);
        let d: Rec = t.cursor_to(l.start(k));
        check(c.same(&d), "hinted insert: the cursor given back is the path to the inserted run");
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// the same with runs that join
fn insert_joining<const M: usize>(n: usize, h: usize) {
    let mut l = List::new();
    let mut t: RleTree<Ix, Tok<true>, NoFeatures, M> = RleTree::new_empty();
    for i in 0..n { let s = size(); let c = Class { l: 2, r: 1, s: 1 }; t.insert(l.total(), Tok::new(i as u8, c, s), s); l.insert_join(At::Gap(i), Run::new(i as u8, c, s)); }
    let at = l.any_at(true);
    let c = Class::any();
    assume(!l.joins_both(at, c));
    let s = size();
    let hint = any_hint(h);
    let c2 = t.insert_with_cursor(hint, l.pos(at), Tok::new(100, c, s), s);
    let k = l.insert_join(at, Run::new(100, c, s));
    same(&t, &l);
    let d: Rec = t.cursor_to(l.start(k));
    check(c2.same(&d), "hinted joining insert: the cursor given back is the path to the run");
    cover(1);
}
/// insert_ref with a hint
fn insert_ref<const M: usize>(n: usize, h: usize) {
    let (mut t, mut l) = grow::<AllowSliceRefs, M>(n, choose(3));
    let at = l.any_at(true);
    let hint = any_hint(h);
    let s = size();
    let (c, r) = t.insert_ref_with_cursor(hint, l.pos(at), Tok::new(100, Class::NONE, s), s);
    let k = l.insert(at, Run::new(100, Class::NONE, s));
    same(&t, &l);
    check(r.range().start == l.start(k), "hinted insert_ref: start");
    let d: Rec = r.cursor();
    check(c.same(&d), "hinted insert_ref: the cursor given back is the path to the inserted run");
    cover(1);
}
/// stale cursors of the library's own kind: each insertion is given the cursor of an earlier one
fn stale<const M: usize, const LEN: usize>(n: usize, k: usize) {
    let (mut t, mut l) = grow::<NoFeatures, M>(n, choose(3));
    let mut c: BoundedCursor<LEN> = if choose(2) == 0 || n == 0 { BoundedCursor::new_empty() } else { let g = choose(n); t.cursor_to(l.start(g)) };
    for i in 0..k {
        let at = l.any_at(true);
        let s = size();
        c = t.insert_with_cursor(c, l.pos(at), Tok::new(100 + i as u8, Class::NONE, s), s);
        l.insert(at, Run::new(100 + i as u8, Class::NONE, s));
        same(&t, &l);
    }
    let at = l.any_at(false);
    let g = List::run_at(at);
    check(t.get_with_cursor(c, l.pos(at)).range().start == l.start(g), "get with a stale cursor");
    cover(1);
}

entries! {
    c05_get_m1_n5 => lookup::<NoFeatures, 1>(5, 3);
    c05_get_m1_n9 => lookup::<NoFeatures, 1>(9, 3);
    c05_get_m2_n12 => lookup::<NoFeatures, 2>(12, 2);
    c05_get_m5_n12 => lookup::<NoFeatures, 5>(12, 2);
    c05_get_cow_m1_n5 => lookup::<AllowCow, 1>(5, 2);
    c05_get_refs_m1_n5 => lookup::<AllowSliceRefs, 1>(5, 2);
    c05_iter_m1_n5 => iterate::<NoFeatures, 1>(5, 3);
    c05_iter_m1_n9 => iterate::<NoFeatures, 1>(9, 3);
    c05_iter_m2_n12 => iterate::<NoFeatures, 2>(12, 2);
    c05_iter_cow_m1_n5 => iterate::<AllowCow, 1>(5, 2);
    c05_ins_m1_n0 => insert::<NoFeatures, 1>(choose(3), 2);
    c05_ins_m1_n5 => insert::<NoFeatures, 1>(5, 3);
    c05_ins_m1_n9 => insert::<NoFeatures, 1>(9, 3);
    c05_ins_m2_n12 => insert::<NoFeatures, 2>(12, 2);
    c05_ins_m5_n12 => insert::<NoFeatures, 5>(12, 2);
    c05_ins_cow_m1_n5 => insert::<AllowCow, 1>(5, 3);
    c05_ins_refs_m1_n5 => insert::<AllowSliceRefs, 1>(5, 3);
    c05_insref_m1_n5 => insert_ref::<1>(5, 3);
    c05_insjoin_m1_n5 => insert_joining::<1>(5, 2);
    c05_insjoin_m2_n7 => insert_joining::<2>(7, 2);
    c05_stale_m1_n3_k2 => stale::<1, 8>(3, 2);
    c05_stale_m1_n6_k2 => stale::<1, 2>(6, 2);
    c05_stale_m1_n0_k3 => stale::<1, 4>(0, 3);
    c05_stale_m2_n5_k2 => stale::<2, 1>(5, 2);
}
