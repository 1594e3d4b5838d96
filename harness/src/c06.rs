//! C06: returned cursors are the true path.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{Cursor, RleTree};

/// Every way of getting a cursor to a run agrees, and together the paths are those of an in-order walk of a B-tree.
fn paths<P, const M: usize, const J: bool>(t: &RleTree<Ix, Tok<J>, P, M>, l: &List) where P: EntryCursor<Tok<J>, M> {
    let mut p = [Rec::new_empty(); CAP];
    let mut k = 0;
    for e in t.iter(..) {
        let c: Rec = t.cursor_to(e.range().start);
        if let Some(d) = P::cursor_of(&e) { check(c.same(&d), "an iterated entry's cursor is cursor_to its start"); }
        p[k] = c;
        k += 1;
    }
    well_formed(&p, k, M);
    if k == 0 { return; }
    let at = l.any_at(false);
    let k = List::run_at(at);
    let c: Rec = t.cursor_to(l.pos(at));
    check(c.same(&p[k]), "cursor_to is the same everywhere in a run");
    if let Some(d) = P::cursor_of(&t.get(l.pos(at))) { check(d.same(&p[k]), "an entry's cursor is cursor_to its start"); }
}
fn history<P, const M: usize>(n: usize, k: usize) where P: EntryCursor<Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let (mut t, mut l) = grow::<P, M>(n, if n == 0 { 0 } else { choose(3) });
    for i in 0..k {
        let at = l.any_at(true);
        let s = size();
        let c = t.insert_with_cursor(Rec::new_empty(), l.pos(at), Tok::new(100 + i as u8, Class::NONE, s), s);
        let g = l.insert(at, Run::new(100 + i as u8, Class::NONE, s));
        let d: Rec = t.cursor_to(l.start(g));
        check(c.same(&d), "the cursor an insertion gives back is the path to the inserted run");
        paths(&t, &l);
    }
    cover(1);
}
/// with runs that join
fn joining<P, const M: usize>(n: usize) where P: EntryCursor<Tok<true>, M> + SupportsInsert<Ix, Tok<true>, M> {
    let mut l = List::new();
    let mut t: RleTree<Ix, Tok<true>, P, M> = RleTree::new_empty();
    let pre = choose(2);
    for i in 0..n { let s = size(); let c = Class { l: 2, r: 1, s: 1 }; let g = if pre == 0 { i } else { 0 }; t.insert(l.start(g), Tok::new(i as u8, c, s), s); l.insert_join(At::Gap(g), Run::new(i as u8, c, s)); }
    let at = l.any_at(true);
    let c = Class::any();
    assume(!l.joins_both(at, c));
    let s = size();
    let p = t.insert_with_cursor(Rec::new_empty(), l.pos(at), Tok::new(100, c, s), s);
    let k = l.insert_join(at, Run::new(100, c, s));
    let d: Rec = t.cursor_to(l.start(k));
    check(p.same(&d), "the cursor an insertion gives back is the path to the joined run");
    paths(&t, &l);
    cover(1);
}
/// slice references: kept across an insertion
fn refs<const M: usize>(n: usize) {
    let (mut t, mut l) = grow::<AllowSliceRefs, M>(n, choose(3));
    let g = choose(n);
    let r = t.get(l.start(g)).make_ref();
    let id = l.runs[g].segs[0].id;
    let at = l.any_at(true);
    let s = size();
    let (c, r2) = t.insert_ref_with_cursor(Rec::new_empty(), l.pos(at), Tok::new(100, Class::NONE, s), s);
    let k = l.insert(at, Run::new(100, Class::NONE, s));
    let d: Rec = t.cursor_to(l.start(k));
    check(c.same(&d), "the cursor an insertion gives back is the path to the inserted run");
    let d2: Rec = r2.cursor();
    check(c.same(&d2), "the inserted run's reference has the path to it");
    let mut g = 0;
    while !(l.runs[g].segs[0].id == id && l.runs[g].segs[0].off == 0) { g += 1; }
    let d: Rec = t.cursor_to(l.start(g));
    let e: Rec = r.cursor();
    check(d.same(&e), "an earlier reference's cursor is the path to its run as the tree is now");
    paths(&t, &l);
    cover(1);
}
/// copy-on-write trees whose nodes are shared
fn shared<const M: usize>(n: usize, k: usize) {
    let (mut t, mut l) = grow::<AllowCow, M>(n, choose(3));
    let (mut u, mut m) = (t.clone(), l.clone());
    for i in 0..k {
        let (x, y) = if choose(2) == 0 { (&mut t, &mut l) } else { (&mut u, &mut m) };
        let at = y.any_at(true);
        let s = size();
        let c = x.insert_with_cursor(Rec::new_empty(), y.pos(at), Tok::new(100 + i as u8, Class::NONE, s), s);
        let g = y.insert(at, Run::new(100 + i as u8, Class::NONE, s));
        let d: Rec = x.cursor_to(y.start(g));
        check(c.same(&d), "the cursor an insertion gives back is the path to the inserted run (shared nodes)");
    }
    if choose(2) == 0 { paths(&t, &l) } else { paths(&u, &m) }
    cover(1);
}

entries! {
    c06_m1_k4 => history::<NoFeatures, 1>(0, 4);
    c06_m1_n6_k1 => history::<NoFeatures, 1>(6, 1);
    c06_m1_n14_k1 => history::<NoFeatures, 1>(14, 1);
    c06_m2_n12_k1 => history::<NoFeatures, 2>(12, 1);
    c06_m2_n24_k1 => history::<NoFeatures, 2>(24, 1);
    c06_m3_n13_k1 => history::<NoFeatures, 3>(13, 1);
    c06_m5_n12_k1 => history::<NoFeatures, 5>(12, 1);
    c06_cow_m1_n7_k1 => history::<AllowCow, 1>(7, 1);
    c06_refs_m1_n7_k1 => history::<AllowSliceRefs, 1>(7, 1);
    c06_join_m1_n8 => joining::<NoFeatures, 1>(8);
    c06_join_m2_n7 => joining::<NoFeatures, 2>(7);
    c06_join_refs_m1_n5 => joining::<AllowSliceRefs, 1>(5);
    c06_slicerefs_m1_n5 => refs::<1>(5);
    c06_slicerefs_m1_n9 => refs::<1>(9);
    c06_slicerefs_m2_n7 => refs::<2>(7);
    c06_shared_m1_n5_k1 => shared::<1>(5, 1);
    c06_shared_m1_n9_k1 => shared::<1>(9, 1);
    c06_shared_m1_n5_k2 => shared::<1>(5, 2);
    c06_shared_m1_n7_k2 => shared::<1>(7, 2);
    c06_shared_m2_n9_k1 => shared::<2>(9, 1);
    c06_shared_m5_n12_k1 => shared::<5>(12, 1);
}
