//! C07: BoundedCursor replays the root-most components in order.
use crate::{entries, model::*, sv::*};
use sherman::param::*;
use sherman::{BoundedCursor, Cursor, NoCursor, PathComponent, RleTree};

fn replay<const LEN: usize>(max: usize) {
    let k = choose(max + 1);
    let mut c: BoundedCursor<LEN> = BoundedCursor::new_empty();
    let mut given = [0u8; 16];
    let mut i = k;
    while i > 0 { i -= 1; given[i] = range(8, 0, 254) as u8; c.prepend_to_path(component(given[i])); }
    let d = c.clone();
    let mut it = if choose(2) == 0 { c.into_path() } else { d.into_path() };
    let want = if k < LEN { k } else { LEN };
    for i in 0..want { check(it.next() == Some(component(given[i])), "the path is replayed from its root-most component"); }
    check(it.next().is_none(), "nothing more than what was given is replayed");
    check(it.next().is_none(), "the end of the path is stable");
    cover(1);
}
/// a cursor made by a tree, against the full path
fn of_tree<const M: usize, const LEN: usize>(n: usize) {
    let (t, l) = grow::<NoFeatures, M>(n, choose(3));
    let at = l.any_at(false);
    let full: Rec = t.cursor_to(l.pos(at));
    let c: BoundedCursor<LEN> = if choose(2) == 0 { t.cursor_to(l.pos(at)) } else { t.get(l.pos(at)).cursor() };
    let mut it = c.into_path();
    let want = if full.len() < LEN { full.len() } else { LEN };
    for i in 0..want { check(it.next() == Some(full.at(i)), "the cursor of a run starts with the root-most components of its path"); }
    check(it.next().is_none(), "and has nothing else");
    cover(1);
}
fn nop() {
    let mut c = NoCursor::new_empty();
    for _ in 0..choose(3) { c.prepend_to_path(component(range(8, 0, 254) as u8)); }
    check(c.into_path().next().is_none(), "NoCursor is empty");
    cover(1);
}
fn too_long() { check(panics(|| { let _: BoundedCursor<256> = BoundedCursor::new_empty(); }), "LEN above 255 is refused"); cover(1); }

entries! {
    c07_len0 => replay::<0>(4);
    c07_len1 => replay::<1>(5);
    c07_len2 => replay::<2>(6);
    c07_len3 => replay::<3>(6);
    c07_len4 => replay::<4>(8);
    c07_len8 => replay::<8>(12);
    c07_len12 => replay::<12>(16);
    c07_len255 => replay::<255>(6);
    c07_tree_m1_l8 => of_tree::<1, 8>(12);
    c07_tree_m1_l1 => of_tree::<1, 1>(12);
    c07_tree_m1_l2 => of_tree::<1, 2>(12);
    c07_tree_m2_l3 => of_tree::<2, 3>(12);
    c07_nop => nop();
    c07_too_long => too_long();
}
