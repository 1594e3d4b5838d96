//! C11: insert_ref designates what was inserted.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{Cursor, RleTree, SliceRef};

type T<const J: bool, const M: usize> = RleTree<Ix, Tok<J>, AllowSliceRefs, M>;
type R<const J: bool, const M: usize> = SliceRef<Ix, Tok<J>, M>;

fn designates<const J: bool, const M: usize>(t: &T<J, M>, l: &List, r: &R<J, M>, g: usize) {
    check(r.is_valid(), "the reference is valid");
    let s = l.start(g);
    let x = r.range();
    check(x.start == s && x.end == s + l.runs[g].size, "the reference's range is that of the run with the inserted slice");
    let b = r.borrow_slice();
    l.runs[g].matches(&*b);
    let e = t.get(s);
    check(std::ptr::eq(&*b, e.slice()), "the borrow is of the slice in the tree");
    let c: Rec = r.cursor();
    let d: Rec = t.cursor_to(s);
    check(c.same(&d), "the reference's cursor is the path to the run with the inserted slice");
    log(x.start as u64);
}
fn put<const J: bool, const M: usize>(t: &mut T<J, M>, l: &mut List, at: At, id: u8, c: Class, tags: &mut [usize]) -> (R<J, M>, usize) {
    let s = size();
    let (p, k) = (l.pos(at), l.insert_track(at, Run::new(id, c, s), tags));
    let r = if choose(2) == 0 { t.insert_ref(p, Tok::new(id, c, s), s) } else {
        let (p, r) = t.insert_ref_with_cursor(Rec::new_empty(), p, Tok::new(id, c, s), s);
        let d: Rec = t.cursor_to(l.start(k));
        check(p.same(&d), "the cursor is the path to the run with the inserted slice");
        r
    };
    (r, k)
}
fn start<const J: bool, const M: usize>(n: usize) -> (T<J, M>, List) {
    let mut l = List::new();
    let mut t: T<J, M> = RleTree::new_empty();
    let pat = if n == 0 { 0 } else { choose(3) };
    for i in 0..n {
        let s = size();
        let c = if J { Class { l: 2, r: 1, s: 1 } } else { Class::NONE };
        let g = match pat { 0 => l.n, 1 => 0, _ => l.n / 2 };
        t.insert(l.start(g), Tok::new(i as u8, c, s), s);
        l.insert(At::Gap(g), Run::new(i as u8, c, s));
    }
    (t, l)
}
/// the reference an insertion gives back, at once and after further insertions
fn once<const J: bool, const M: usize>(n: usize, k: usize) {
    let live0 = live();
    {
        let (mut t, mut l) = start::<J, M>(n);
        let at = l.any_at(true);
        let c = if J { Class::any() } else { Class::NONE };
        if J { assume(!l.joins_both(at, c)); }
        let (r, g) = put(&mut t, &mut l, at, 100, c, &mut []);
        designates(&t, &l, &r, g);
        let q = t.get(l.start(g)).make_ref();
        let mut tag = [g];
        for i in 0..k {
            let at = l.any_at(true);
            let c = if J { Class::any() } else { Class::NONE };
            if J { assume(!l.joins_both(at, c)); }
            let (r2, g2) = put(&mut t, &mut l, at, 101 + i as u8, c, &mut tag);
            designates(&t, &l, &r2, g2);
            designates(&t, &l, &r, tag[0]);
            designates(&t, &l, &q, tag[0]);
        }
        cover(1);
    }
    check(live() == live0, "everything is freed");
}

entries! {
    c11_m1_n0_k2 => once::<false, 1>(0, 2);
    c11_m1_n3_k1 => once::<false, 1>(3, 1);
    c11_m1_n6_k0 => once::<false, 1>(6, 0);
    c11_m1_n5_k1 => once::<false, 1>(5, 1);
    c11_m1_n14_k0 => once::<false, 1>(14, 0);
    c11_m2_n5_k1 => once::<false, 2>(5, 1);
    c11_m2_n14_k0 => once::<false, 2>(14, 0);
    c11_m2_n24_k0 => once::<false, 2>(24, 0);
    c11_m3_n13_k0 => once::<false, 3>(13, 0);
    c11_m5_n12_k0 => once::<false, 5>(12, 0);
    c11_join_m1_n1_k1 => once::<true, 1>(1, 1);
    c11_join_m1_n3_k1 => once::<true, 1>(3, 1);
    c11_join_m1_n8_k0 => once::<true, 1>(8, 0);
    c11_join_m1_n14_k0 => once::<true, 1>(14, 0);
    c11_join_m2_n7_k0 => once::<true, 2>(7, 0);
    c11_join_m2_n24_k0 => once::<true, 2>(24, 0);
    c11_join_m5_n12_k0 => once::<true, 5>(12, 0);
}
