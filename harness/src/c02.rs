//! C02: iteration yields exactly the overlapping runs, from either end.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::range::{EndBound, StartBound};
use sherman::RleTree;

/// every accepted range over a non-empty tree, with the first and last run that overlap it
fn any_range(l: &List) -> (StartBound<Ix>, EndBound<Ix>, usize, usize) {
    let mut lo: Ix = 0; let mut first = 0usize;
    let s = if choose(2) == 0 { StartBound::Unbounded } else { let at = l.any_at(false); lo = l.pos(at); first = List::run_at(at); StartBound::Included(lo) };
    match choose(3) {
        0 => (s, EndBound::Unbounded, first, l.n - 1),
        1 => { let at = l.any_at(false); let hi = l.pos(at); assume(lo <= hi); (s, EndBound::Included(hi), first, List::run_at(at)) }
        _ => {
            let at = l.any_at(true); let hi = l.pos(at);
            if let StartBound::Included(_) = s { assume(lo < hi); } else { assume(hi > 0); }
            (s, EndBound::Excluded(hi), first, match at { At::Gap(k) => k - 1, At::In(k, _) => k })
        }
    }
}
/// walk: 0 every interleaving of front and back, 1 front only, 2 back only, 3 alternating
fn walk<P, const M: usize>(t: &Tree<P, M>, l: &List, s: StartBound<Ix>, e: EndBound<Ix>, first: usize, last: usize, mode: usize) where P: RleTreeConfig<Ix, Tok<false>, M> {
    let mut it = t.iter((s, e));
    let (mut f, mut b) = (first, last + 1);
    let mut fs = l.start(f); let mut be = l.start(b);
    let mut nones = 0; let mut step = 0;
    while nones < 2 {
        let front = match mode { 0 => choose(2) == 0, 1 => true, 2 => false, _ => step % 2 == 0 };
        step += 1;
        let x = if front { it.next() } else { it.next_back() };
        check(x.is_some() == (f < b), "the iterator is exhausted exactly when all runs were taken");
        match x {
            None => nones += 1,
            Some(x) => {
                let k = if front { f += 1; f - 1 } else { b -= 1; b };
                let r = x.range();
                let (rs, re) = if front { let rs = fs; fs += l.runs[k].size; (rs, fs) } else { let re = be; be -= l.runs[k].size; (be, re) };
                check(r.start == rs, "start of an iterated run");
                check(r.end == re, "end of an iterated run");
                check(x.size() == l.runs[k].size, "size of an iterated run");
                l.runs[k].matches(x.slice());
                log(r.end as u64);
            }
        }
    }
    check(it.next().is_none(), "a finished iterator stays finished");
    check(it.next_back().is_none(), "a finished iterator stays finished (back)");
}
fn ranges<P, const M: usize>(n: usize, mode: usize) where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let live0 = live();
    {
        let (t, l) = grow::<P, M>(n, choose(3));
        let (s, e, a, b) = any_range(&l);
        let mode = if mode == 9 { 1 + choose(3) } else { mode };
        walk(&t, &l, s, e, a, b, mode);
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// iteration over all of a tree that shares nodes with a clone, after either was changed
fn shared<const M: usize>(n: usize, k: usize, all: bool) {
    let live0 = live();
    {
        let (mut t, mut l) = grow::<AllowCow, M>(n, choose(3));
        let (mut u, mut m) = (t.clone(), l.clone());
        for i in 0..k { if choose(2) == 0 { ins(&mut t, &mut l, 100 + i as u8) } else { ins(&mut u, &mut m, 100 + i as u8) } }
        let (x, y) = if choose(2) == 0 { (&t, &l) } else { (&u, &m) };
        let mode = 1 + choose(3);
        if all { let (s, e, a, b) = any_range(y); walk(x, y, s, e, a, b, mode) } else { walk(x, y, StartBound::Unbounded, EndBound::Unbounded, 0, y.n - 1, mode) }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// the same where the allocator hands out the addresses of freed nodes again (`mode`, see `reuse`): a clone, `a` insertions
/// into either tree, either is dropped, `k` insertions into what is left
fn recycled<const M: usize>(n: usize, shape: usize, a: usize, k: usize, mode: u64) {
    let live0 = live();
    {
        reuse(mode);
        let (mut t, mut l) = grow::<AllowCow, M>(n, if shape == 9 { choose(3) } else { shape });
        let (mut u, mut m) = (t.clone(), l.clone());
        for i in 0..a { if choose(2) == 0 { ins(&mut t, &mut l, 100 + i as u8) } else { ins(&mut u, &mut m, 100 + i as u8) } }
        if choose(2) == 0 { t = u; l = m; } else { drop(u); }
        for i in 0..k { ins(&mut t, &mut l, 110 + i as u8); }
        walk(&t, &l, StartBound::Unbounded, EndBound::Unbounded, 0, l.n - 1, 1 + choose(2));
        cover(1);
    }
    check(live() == live0, "everything is freed");
}
/// ranges that touch nothing
fn nothing<P, const M: usize>() where P: RleTreeConfig<Ix, Tok<false>, M> + SupportsInsert<Ix, Tok<false>, M> {
    let (t, _) = grow::<P, M>(choose(4), 0);
    let mut it = t.iter(..0);
    for _ in 0..3 { check(if choose(2) == 0 { it.next() } else { it.next_back() }.is_none(), "..0 yields nothing"); }
    let t: Tree<P, M> = RleTree::new_empty();
    let mut it = t.iter(..);
    for _ in 0..3 { check(if choose(2) == 0 { it.next() } else { it.next_back() }.is_none(), "an empty tree yields nothing"); }
    cover(1);
}

entries! {
    c02_m1_n3 => ranges::<NoFeatures, 1>(3, 0);
    c02_m1_n4 => ranges::<NoFeatures, 1>(4, 0);
    c02_m1_n7 => ranges::<NoFeatures, 1>(7, 9);
    c02_m1_n9 => ranges::<NoFeatures, 1>(9, 9);
    c02_m2_n12 => ranges::<NoFeatures, 2>(12, 9);
    c02_m5_n12 => ranges::<NoFeatures, 5>(12, 9);
    c02_m5_n24 => ranges::<NoFeatures, 5>(24, 9);
    c02_refs_m1_n5 => ranges::<AllowSliceRefs, 1>(5, 9);
    c02_cow_m1_n5 => ranges::<AllowCow, 1>(5, 9);
    c02_shared_m1_n3_k1 => shared::<1>(3, 1, true);
    c02_shared_m1_n4_k1 => shared::<1>(4, 1, true);
    c02_shared_m1_n8_k1 => shared::<1>(8, 1, false);
    c02_shared_m1_n12_k1 => shared::<1>(12, 1, false);
    c02_shared_m1_n5_k2 => shared::<1>(5, 2, false);
    c02_shared_m1_n8_k2 => shared::<1>(8, 2, false);
    c02_shared_m2_n12_k1 => shared::<2>(12, 1, false);
    c02_shared_m5_n12_k1 => shared::<5>(12, 1, false);
    c02_recycled_m1_n5_a2 => recycled::<1>(5, 2, 2, 1, 1);
    c02_recycled_m1_n8_a1 => recycled::<1>(8, 9, 1, 1, 1);
    c02_recycled_any_m1_n4_a1 => recycled::<1>(4, 9, 1, 1, 2);
    c02_recycled_m2_n9_a1 => recycled::<2>(9, 9, 1, 1, 1);
    c02_recycled_all_m1_n5_a2 => recycled::<1>(5, 9, 2, 1, 1);
    c02_recycled_any_m1_n4_a2 => recycled::<1>(4, 9, 2, 1, 2);
    c02_recycled_any_m1_n8_a1 => recycled::<1>(8, 9, 1, 1, 2);
    c02_recycled_m2_n7_a2 => recycled::<2>(7, 9, 2, 1, 1);
    c02_nothing => nothing::<NoFeatures, 1>();
    c02_nothing_cow => nothing::<AllowCow, 1>();
}
