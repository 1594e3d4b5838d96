"""What each check explores. bounds: what the symbolic inputs range over."""
SPECS = {}


def spec(pid, feature, quick, thorough=(), **kw):
    SPECS[pid] = dict(feature=feature, quick=quick, thorough=list(thorough), **kw)


def E(entry, bounds, **kw):
    return dict(entry=entry, bounds=bounds, **kw)


ANY = "every insertion position (structural choice of run or gap, symbolic offset inside the run), symbolic sizes 1..=1023"
spec("C01", "c01", [
    E("c01_m1_k4", f"M=1, empty or singleton start, 4 insertions, {ANY}, get anywhere"),
    E("c01_m2_k4", f"M=2, empty or singleton start, 4 insertions, {ANY}, get anywhere"),
    E("c01_cow_m1_k3", f"AllowCow, M=1, 3 insertions, {ANY}"),
    E("c01_refs_m1_k3", f"AllowSliceRefs, M=1, 3 insertions, {ANY}"),
    E("c01_m1_n12_k1", f"M=1, 12 runs appended/prepended/inserted in the middle, then 1 insertion, {ANY}"),
    E("c01_m1_n6_k2", f"M=1, 6 runs appended/prepended/inserted in the middle, then 2 insertions, {ANY}"),
    E("c01_m2_n12_k1", f"M=2, 12 runs, then 1 insertion, {ANY}"),
    E("c01_m3_n13_k1", f"M=3, 13 runs, then 1 insertion, {ANY}"),
    E("c01_m5_n11_k1", f"M=5 (default), 11 runs, then 1 insertion, {ANY}"),
    E("c01_m5_n16_k1", f"M=5 (default), 16 runs, then 1 insertion, {ANY}"),
    E("c01_m5_n70", "M=5 (default), 70 runs, get anywhere"),
    E("c01_m2_n30", "M=2, 30 runs, get anywhere"),
], [
    E("c01_m1_k5", f"M=1, 5 insertions, {ANY}"),
    E("c01_m2_k5", f"M=2, 5 insertions, {ANY}"),
    E("c01_cow_m1_k4", f"AllowCow, M=1, 4 insertions, {ANY}"),
    E("c01_refs_m1_k4", f"AllowSliceRefs, M=1, 4 insertions, {ANY}"),
    E("c01_m1_n8_k2", f"M=1, 8 runs, then 2 insertions, {ANY}"),
    E("c01_m2_n10_k2", f"M=2, 10 runs, then 2 insertions, {ANY}"),
    E("c01_m5_n10_k2", f"M=5, 10 runs, then 2 insertions, {ANY}"),
    E("c01_m1_n20_k1", f"M=1, 20 runs, then 1 insertion, {ANY}"),
], min_functions=20, outside="longer histories and larger trees; index types other than u16; totals above the index type's range (the index type's own overflow)")

OUT = "longer histories and larger trees than listed; index types other than u16 unless an entry says so; totals above the index type's range"

spec("C02", "c02", [
    E("c02_m1_n3", "M=1, trees of up to 3 runs of symbolic sizes (built in 3 shapes), every symbolic range of every kind, every interleaving of next and next_back to the end and beyond"),
    E("c02_m1_n4", "as c02_m1_n3, 4 runs"),
    E("c02_m1_n7", "M=1, 7 runs, symbolic range, interleavings with up to 9 switches"),
    E("c02_m1_n9", "M=1, 9 runs"),
    E("c02_m2_n12", "M=2, 12 runs"),
    E("c02_m5_n12", "M=5, 12 runs"),
    E("c02_m5_n24", "M=5, 24 runs"),
    E("c02_refs_m1_n5", "AllowSliceRefs, M=1, 5 runs"),
    E("c02_cow_m1_n5", "AllowCow, M=1, 5 runs"),
    E("c02_shared_m1_n3_k1", "AllowCow clones, M=1, 3 runs then 1 insertion at any position into one clone, iterating both"),
    E("c02_shared_m1_n4_k1", "4 runs, 1 insertion"),
    E("c02_shared_m1_n8_k1", "8 runs, 1 insertion"),
    E("c02_shared_m1_n5_k2", "5 runs, 2 insertions"),
    E("c02_shared_m2_n12_k1", "M=2, 12 runs, 1 insertion"),
    E("c02_recycled_m1_n5_a2", "AllowCow, M=1, 5 runs inserted in the middle, a clone, 2 insertions at any positions into either, either is dropped, 1 insertion at any position, iterated from either end; the last freed node address of a layout is the next one handed out"),
    E("c02_recycled_m1_n8_a1", "the same, 8 runs (3 shapes), 1 insertion before the drop"),
    E("c02_recycled_any_m1_n4_a1", "the same, 4 runs; every choice between fresh memory and any freed node"),
    E("c02_recycled_m2_n9_a1", "the same, M=2, 9 runs, last freed first"),
    E("c02_nothing", "the empty tree", covers=[]),
    E("c02_nothing_cow", "the empty tree, AllowCow", covers=[]),
], [
    E("c02_recycled_all_m1_n5_a2", "as c02_recycled_m1_n5_a2, 3 shapes"),
    E("c02_recycled_any_m1_n4_a2", "4 runs, 3 shapes, 2 insertions before the drop; every choice between fresh memory and any freed node"),
    E("c02_recycled_any_m1_n8_a1", "8 runs, 1 insertion before the drop; every choice"),
    E("c02_recycled_m2_n7_a2", "M=2, 7 runs, 2 insertions before the drop, last freed first"),
    E("c02_shared_m1_n12_k1", "12 runs, 1 insertion"),
    E("c02_shared_m1_n8_k2", "8 runs, 2 insertions"),
    E("c02_shared_m5_n12_k1", "M=5, 12 runs, 1 insertion"),
], min_functions=20, outside=OUT)

C03B = "every symbolic argument (u16; inside and outside the documented domain), tree contents compared before and after a refusal, tree used again"
spec("C03", "c03", [E(n, b + ", " + C03B, covers=([1, 2] if "insert" in n else [1])) for n, b in [
    ("c03_get_m1", "get, M=1, 0-3 runs"), ("c03_cursor_m1", "cursor_to, M=1, 0-3 runs"), ("c03_insert_m1", "insert, M=1, 0-3 runs"),
    ("c03_iter_m1", "iter with every kind of bound, M=1, 0-3 runs"), ("c03_new_m1", "new"), ("c03_get_m2_n7", "get, M=2, 7 runs"), ("c03_iter_m2_n7", "iter, M=2, 7 runs"),
    ("c03_insert_m1_n8", "insert, M=1, 8 runs"), ("c03_insert_cow_m1", "insert, AllowCow, 0-3 runs, with a clone"), ("c03_get_cow_m1", "get, AllowCow"), ("c03_iter_cow_m1", "iter, AllowCow"),
    ("c03_cursor_cow_m1", "cursor_to, AllowCow"), ("c03_insert_refs_m1", "insert, AllowSliceRefs, with references"), ("c03_get_refs_m1", "get, AllowSliceRefs"), ("c03_iter_refs_m1", "iter, AllowSliceRefs"), ("c03_new_refs_m1", "new, AllowSliceRefs"),
    ("c03_signed_m1", "i16 index (negative arguments and sizes), M=1, 0-3 runs"), ("c03_signed_m2", "i16 index, M=2, 6 runs")]], min_functions=20, outside=OUT)

C04B = "every insertion position, symbolic sizes, a join oracle that answers every offered pair of neighbours independently (at most one side joins)"
spec("C04", "c04", [
    E("c04_m1_k3", f"M=1, 3 insertions, {C04B}"), E("c04_m1_k4", f"M=1, 4 insertions, {C04B}"),
    E("c04_m2_k4", f"M=2, 4 insertions, {C04B}"), E("c04_cow_m1_k3", f"AllowCow, M=1, 3 insertions, {C04B}"),
    E("c04_refs_m1_k3", f"AllowSliceRefs, M=1, 3 insertions, {C04B}"),
    E("c04_m1_n4_k2", f"M=1, 4 runs, then 2 insertions, {C04B}"), E("c04_m1_n8_k1", f"M=1, 8 runs, then 1 insertion, {C04B}"),
    E("c04_m1_n14_k1", f"M=1, 14 runs, then 1 insertion, {C04B}"), E("c04_m2_n12_k1", f"M=2, 12 runs, then 1 insertion, {C04B}"),
    E("c04_m2_n5_k2", f"M=2, 5 runs, then 2 insertions, {C04B}"), E("c04_m5_n11_k1", f"M=5, 11 runs, then 1 insertion, {C04B}"),
    E("c04_cow_m1_n8_k1", f"AllowCow, M=1, 8 runs, then 1 insertion, {C04B}"), E("c04_refs_m1_n8_k1", f"AllowSliceRefs, M=1, 8 runs, then 1 insertion, {C04B}"),
    E("c04_refs_m2_n7_k1", f"AllowSliceRefs, M=2, 7 runs, then 1 insertion, {C04B}"),
    E("c04_both", "insertions that join both neighbours (known finding)", covers=[]),
], [
    E("c04_m2_k3", f"M=2, 3 insertions, {C04B}"), E("c04_m1_n7_k2", f"M=1, 7 runs, then 2 insertions, {C04B}"),
], min_functions=20, outside=OUT + "; insertions joining both their neighbours beyond showing that they panic (known finding)")

C05B = "an arbitrary cursor as hint: any number of components up to the listed, each with any child index in 0..=2M+1 and beyond, compared with the same call without hint"
spec("C05", "c05", [E(n, b + "; " + C05B) for n, b in [
    ("c05_get_m1_n5", "lookup, M=1, 5 runs, 3 components"), ("c05_get_m1_n9", "lookup, M=1, 9 runs"), ("c05_get_m2_n12", "lookup, M=2, 12 runs"), ("c05_get_m5_n12", "lookup, M=5, 12 runs"),
    ("c05_get_cow_m1_n5", "lookup, AllowCow"), ("c05_get_refs_m1_n5", "lookup, AllowSliceRefs"), ("c05_iter_m1_n5", "iteration, 5 runs"), ("c05_iter_m1_n9", "iteration, 9 runs"), ("c05_iter_m2_n12", "iteration, M=2, 12 runs"), ("c05_iter_cow_m1_n5", "iteration, AllowCow"),
    ("c05_ins_m1_n0", "insertion, 0-2 runs"), ("c05_ins_m1_n5", "insertion, 5 runs"), ("c05_ins_m1_n9", "insertion, 9 runs"), ("c05_ins_m2_n12", "insertion, M=2, 12 runs"), ("c05_ins_m5_n12", "insertion, M=5, 12 runs"),
    ("c05_ins_cow_m1_n5", "insertion, AllowCow"), ("c05_ins_refs_m1_n5", "insertion, AllowSliceRefs"), ("c05_insref_m1_n5", "insert_ref_with_cursor, 5 runs"), ("c05_insjoin_m1_n5", "insertion that may join"), ("c05_insjoin_m2_n7", "insertion that may join, M=2"),
    ("c05_stale_m1_n3_k2", "cursors returned by earlier calls, stale after 2 insertions"), ("c05_stale_m1_n0_k3", "stale cursors, LEN=4, 3 insertions"), ("c05_stale_m2_n5_k2", "stale cursors, M=2, LEN=1"), ("c05_stale_m1_n6_k2", "stale cursors, M=1, LEN=2, 6 runs")]], min_functions=20, outside=OUT + "; cursors longer than listed")

C06B = "every insertion position; the cursor of every way to reach the slice compared with the true path, found by an independent walk of the structure"
spec("C06", "c06", [E(n, b + "; " + C06B) for n, b in [
    ("c06_m1_n6_k1", "M=1, 6 runs, 1 insertion"), ("c06_m1_n14_k1", "M=1, 14 runs, 1 insertion"), ("c06_m2_n12_k1", "M=2, 12 runs"), ("c06_m2_n24_k1", "M=2, 24 runs"), ("c06_m3_n13_k1", "M=3, 13 runs"), ("c06_m5_n12_k1", "M=5, 12 runs"),
    ("c06_cow_m1_n7_k1", "AllowCow, 7 runs"), ("c06_refs_m1_n7_k1", "AllowSliceRefs, 7 runs"), ("c06_join_m1_n8", "joining insertions, M=1, 8 runs"), ("c06_join_m2_n7", "joining insertions, M=2, 7 runs"), ("c06_join_refs_m1_n5", "joining, AllowSliceRefs"),
    ("c06_slicerefs_m1_n5", "slice references' cursors, 5 runs"), ("c06_slicerefs_m1_n9", "9 runs"), ("c06_slicerefs_m2_n7", "M=2, 7 runs"), ("c06_shared_m1_n5_k1", "shared copy-on-write nodes, 5 runs"), ("c06_shared_m1_n9_k1", "9 runs"),
    ("c06_shared_m1_n5_k2", "5 runs, 2 insertions"), ("c06_shared_m2_n9_k1", "M=2, 9 runs"), ("c06_shared_m5_n12_k1", "M=5, 12 runs")]],
    [E("c06_shared_m1_n7_k2", "shared nodes, 7 runs, 2 insertions; " + C06B), E("c06_m1_k4", "4 insertions from nothing; " + C06B)], min_functions=20, outside=OUT)

spec("C07", "c07", [E(n, b, covers=c) for n, b, c in [
    ("c07_len0", "LEN=0, up to 4 symbolic components", [1]), ("c07_len1", "LEN=1, up to 5", [1]), ("c07_len2", "LEN=2, up to 6", [1]), ("c07_len3", "LEN=3, up to 6", [1]), ("c07_len4", "LEN=4, up to 8", [1]), ("c07_len8", "LEN=8, up to 12", [1]), ("c07_len12", "LEN=12, up to 16", [1]), ("c07_len255", "LEN=255, up to 6", [1]),
    ("c07_tree_m1_l8", "cursor_to of every run of trees of up to 12 runs, M=1, LEN=8", [1]), ("c07_tree_m1_l1", "LEN=1", [1]), ("c07_tree_m1_l2", "LEN=2", [1]), ("c07_tree_m2_l3", "M=2, LEN=3", [1]), ("c07_nop", "NoCursor", []), ("c07_too_long", "the documented maximum of LEN", [])]],
    min_functions=3, outside="more components than listed; LEN other than listed")

C10B = "references made at every chosen place, every insertion position, symbolic sizes; validity, borrow, range and cursor of every reference checked after every step"
spec("C10", "c10", [E(n, b + "; " + C10B) for n, b in [
    ("c10_m1_n3_k2", "M=1, 3 runs, 2 insertions"), ("c10_m1_n5_k1", "M=1, 5 runs, 1 insertion"), ("c10_m1_n5_k2", "M=1, 5 runs, 2 insertions"), ("c10_m1_n9_k1", "M=1, 9 runs"), ("c10_m2_n9_k1", "M=2, 9 runs"), ("c10_m2_n5_k2", "M=2, 5 runs, 2 insertions"), ("c10_m3_n13_k1", "M=3, 13 runs"), ("c10_m5_n11_k1", "M=5, 11 runs"),
    ("c10_join_m1_n3_k2", "joining slices, 3 runs, 2 insertions"), ("c10_join_m1_n6_k1", "joining slices, 6 runs"), ("c10_join_m2_n7_k1", "joining slices, M=2, 7 runs"),
    ("c10_all_m1_n8", "a reference to every one of 8 runs"), ("c10_all_m1_n14", "14 runs"), ("c10_all_m2_n14", "M=2, 14 runs"), ("c10_all_m2_n24", "M=2, 24 runs"), ("c10_all_m5_n12", "M=5, 12 runs"), ("c10_all_join_m1_n8", "joining, 8 runs"), ("c10_all_join_m2_n12", "joining, M=2, 12 runs"),
    ("c10_manage_m1_n2_k3", "2 runs, every sequence of 3 of: make, clone, drop a reference, insert")]],
    [E("c10_manage_m1_n1_k4", "1 run, every sequence of 4; " + C10B), E("c10_manage_m1_n4_k3", "4 runs, every sequence of 3; " + C10B)], min_functions=20, outside=OUT)

C11B = "every insertion position, symbolic sizes; the returned reference compared with one made by get at the insertion point, at once and after the later insertions"
spec("C11", "c11", [E(n, b + "; " + C11B) for n, b in [
    ("c11_m1_n0_k2", "M=1, 0 runs, 2 later insertions"), ("c11_m1_n3_k1", "M=1, 3 runs, 1 later"), ("c11_m1_n6_k0", "M=1, 6 runs"), ("c11_m1_n5_k1", "M=1, 5 runs, 1 later"), ("c11_m1_n14_k0", "M=1, 14 runs"), ("c11_m2_n5_k1", "M=2, 5 runs, 1 later"), ("c11_m2_n14_k0", "M=2, 14 runs"), ("c11_m2_n24_k0", "M=2, 24 runs"), ("c11_m3_n13_k0", "M=3, 13 runs"), ("c11_m5_n12_k0", "M=5, 12 runs"),
    ("c11_join_m1_n1_k1", "joining, 1 run, 1 later"), ("c11_join_m1_n3_k1", "joining, 3 runs, 1 later"), ("c11_join_m1_n8_k0", "joining, 8 runs"), ("c11_join_m1_n14_k0", "joining, 14 runs"), ("c11_join_m2_n7_k0", "joining, M=2, 7 runs"), ("c11_join_m2_n24_k0", "joining, M=2, 24 runs"), ("c11_join_m5_n12_k0", "joining, M=5, 12 runs")]], min_functions=20, outside=OUT)

C12B = "every sequence of operations (borrow, end a borrow, clone and drop references, insert, read, drop the tree) of the given length, every position"
spec("C12", "c12", [E(n, b + "; " + C12B) for n, b in [
    ("c12_m1_n1_k3", "1 run, 3 operations"), ("c12_m1_n3_k3", "3 runs, 3 operations"), ("c12_m1_n4_d_k5", "4 runs, 5 operations after the tree was dropped or about to be"), ("c12_m1_n1_k4", "1 run, 4 operations"), ("c12_m5_n11_b_k2", "M=5, 11 runs, a borrow alive, 2 operations"), ("c12_map_panics", "Borrow::map with a panicking closure")]],
    [E("c12_m2_n6_b_k3", "M=2, 6 runs, a borrow alive, 3 operations; " + C12B), E("c12_m1_n2_b_k4", "2 runs, a borrow alive, 4 operations; " + C12B), E("c12_m1_n1_b_k5", "1 run, a borrow alive, 5 operations; " + C12B)], min_functions=20, outside=OUT + "; Borrow::map beyond one level")

C14B = "every insertion position; the panic happens at any (symbolic) call of the listed user operations; afterwards every query, iteration, insertion and drop is made and every slice accounted for; internal assertions compiled out, so reaching what they guard counts as undefined behaviour"
spec("C14", "c14", [E(n, b + "; " + C14B, nda=True, covers=c) for n, b, c in [
    ("c14_split_m1_n1", "split/drop, M=1, 1 run", [1, 2]), ("c14_split_m1_n4", "split/drop, M=1, 4 runs", [1, 2]), ("c14_split_m1_n8", "split/drop, M=1, 8 runs", [1, 2]), ("c14_split_m2_n5", "split/drop, M=2, 5 runs", [1, 2]),
    ("c14_join_m1_n1", "split/join/drop, M=1, 1 run", [1, 2]), ("c14_join_m1_n2", "2 runs", [1, 2]), ("c14_join_m2_n3", "M=2, 3 runs", [1, 2]), ("c14_join_m1_n5", "M=1, 5 runs", [1, 2]), ("c14_join_m2_n7", "M=2, 7 runs", [1, 2]), ("c14_join_m5_n9", "M=5, 9 runs", [1, 2]),
    ("c14_index_m1_n1", "index type, M=1, 1 run", [1, 2]), ("c14_index_m1_n3", "index type, M=1, 3 runs", [1, 2]), ("c14_index_m1_n7", "index type, M=1, 7 runs", [1, 2]), ("c14_index_m2_n4", "index type, M=2, 4 runs", [1, 2]), ("c14_index_m2_n14", "index type, M=2, 14 runs", [1, 2]),
    ("c14_index_refs_m1_n4", "index type, AllowSliceRefs, 4 runs", [1, 2]),
    ("c14_cow_m1_n1", "split/clone/drop, shared copy-on-write, 1 run", [1, 2]), ("c14_cow_m1_n3", "3 runs", [1, 2]), ("c14_cow_m1_n6", "6 runs", [1, 2]), ("c14_cow_m2_n5", "M=2, 5 runs", [1, 2]), ("c14_cow_m2_n14", "M=2, 14 runs", [1, 2]), ("c14_cow_index_m1_n7", "index type, shared, 7 runs", [1, 2]),
    ("c14_refs_m1_n2", "AllowSliceRefs, 2 runs", [1, 2]), ("c14_refs_m1_n5", "AllowSliceRefs, 5 runs", [1, 2]), ("c14_refs_join_m1_n3", "AllowSliceRefs, joining, 3 runs", [1, 2]), ("c14_refs_join_m2_n5", "AllowSliceRefs, joining, M=2, 5 runs", [1, 2]),
    ("c14_deep_m1_n7", "Clone of a tree, M=1, 7 runs", [1, 2]), ("c14_deep_m2_n14", "Clone of a tree, M=2, 14 runs", [1, 2]),
    ("c14_drop_m1_n7", "dropping a tree, 7 runs", [1]), ("c14_drop_cow_m1_n7", "AllowCow", [1]), ("c14_drop_refs_m1_n7", "AllowSliceRefs", [1]), ("c14_drop_m5_n13", "M=5, 13 runs", [1]), ("c14_drop_shared_m1_n7", "one of two clones", [1]), ("c14_drop_borrowed_m1_n4", "while borrowed", [1]), ("c14_read_m1_n5", "index type panics in reads", [1]),
]], [E(n, b + "; " + C14B, nda=True, covers=[1, 2]) for n, b in [("c14_index_join_m1_n3", "index type, joining, 3 runs"), ("c14_cow_join_m1_n3", "shared, joining, 3 runs"), ("c14_cow_index_m1_n3", "index type, shared, 3 runs"), ("c14_cursor_m1_n4", "cursor iterator panics, 4 runs")]], min_functions=20, outside=OUT + "; more than one panic per history")

spec("C17", "c17", [E(n, b + "; every (symbolic choice of) position; the path length of every run against the B-tree bound") for n, b in [
    ("c17_m1_k4", "4 insertions, M=1"), ("c17_m1_n7_k2", "7 runs in 4 build orders, 2 insertions"), ("c17_m1_n16_k1", "16 runs in 5 orders, 1 insertion"), ("c17_m1_n40", "40 runs, 1 insertion"), ("c17_m2_n14_k1", "M=2, 14 runs"), ("c17_m2_n30_k1", "M=2, 30 runs"), ("c17_m3_n20_k1", "M=3, 20 runs"), ("c17_m5_n25_k1", "M=5, 25 runs"), ("c17_m5_n70", "M=5, 70 runs"),
    ("c17_cow_m1_n14_k1", "AllowCow, 14 runs"), ("c17_refs_m1_n14_k1", "AllowSliceRefs, 14 runs"), ("c17_join_m1_n8_k1", "joining, 8 runs"), ("c17_join_m1_n4_k2", "joining, 4 runs, 2 insertions"), ("c17_join_m2_n8_k1", "joining, M=2, 8 runs"), ("c17_shared_m1_n8", "shared clones, 8 runs")]], min_functions=20, outside=OUT)

spec("C15", "c15", [E(n, b) for n, b in [
    ("c15_each_u16", "each kind of range, pair of bounds and reference to one; every u16 bound and value; inclusive ranges iterated to their end"),
    ("c15_each_i16", "as c15_each_u16 for i16"), ("c15_each_u8", "for u8"), ("c15_each_u64", "for u64"),
    ("c15_overlaps_u16", "every pair of kinds of bounds, every u16 bound"), ("c15_overlaps_i16", "for i16"), ("c15_overlaps_u64", "for u64"),
    ("c15_mixed", "standard ranges and references of different kinds against each other, u16"), ("c15_foreign", "values of another type than the bounds"), ("c15_partial", "a partial order (pairs of u8, componentwise)")]],
    min_functions=10, outside="bound types other than u8, u16, i16, u64 and a partial order over pairs")

C16B = "an index type over a non-abelian group (pairs with a sign twist) ordered by length, symbolic sizes, every symbolic position"
spec("C16", "c16", [E(n, b + ", " + C16B) for n, b in [
    ("c16_m1_k3", "M=1, 3 insertions"), ("c16_m1_n3_k2", "M=1, 3 runs, 2 insertions"), ("c16_m1_n6_k1", "M=1, 6 runs, 1 insertion"), ("c16_m1_n14_k1", "M=1, 14 runs, 1 insertion"),
    ("c16_m2_n5_k1", "M=2, 5 runs, 1 insertion"), ("c16_m3_n13_k1", "M=3, 13 runs, 1 insertion"), ("c16_m5_n11_k1", "M=5, 11 runs, 1 insertion"),
    ("c16_join_m1_n3_k1", "joining, M=1, 3 runs, 1 insertion"), ("c16_join_m1_n8_k1", "joining, M=1, 8 runs, 1 insertion"), ("c16_join_m2_n7_k1", "joining, M=2, 7 runs, 1 insertion"),
    ("c16_read_m1_n9", "get and iter, M=1, 9 runs"), ("c16_read_m2_n14", "get and iter, M=2, 14 runs"), ("c16_cow_m1_n5", "AllowCow, M=1, 5 runs"), ("c16_cow_m2_n7", "AllowCow, M=2, 7 runs"),
    ("c16_refs_m1_n5", "slice references, M=1, 5 runs"), ("c16_refs_join_m1_n5", "slice references and joins, M=1, 5 runs"), ("c16_refs_m2_n9", "slice references, M=2, 9 runs")]],
    [E(n, b + ", " + C16B) for n, b in [("c16_m2_n5_k2", "M=2, 5 runs, 2 insertions"), ("c16_m2_n24_k1", "M=2, 24 runs, 1 insertion")]],
    min_functions=20, outside="other index types; longer histories and larger trees than listed")

C08B = "every insertion position, symbolic sizes; every live clone compared with its own list of runs after every step"
spec("C08", "c08", [E(n, b + "; " + C08B) for n, b in [
    ("c08_cow_empty", "clones of the empty tree, AllowCow"), ("c08_deep_empty", "clones of the empty tree, NoFeatures"),
    ("c08_cow_m1_n1_k3", "1 run, every sequence of 3 of: clone, drop a clone, insert into any clone"), ("c08_cow_m1_n3_k2", "3 runs, every sequence of 2"), ("c08_cow_m1_n7_k2", "7 runs, every sequence of 2"),
    ("c08_deep_m1_n3_k2", "deep clones, 3 runs, sequences of 2"), ("c08_deep_m1_n7_k1", "deep clones, 7 runs"), ("c08_deep_m5_n12_k1", "deep clones, M=5, 12 runs"),
    ("c08_pair_m1_n3_k3", "two clones, 3 runs, 3 insertions into either"), ("c08_pair_m1_n4_k2", "4 runs, 2"), ("c08_pair_m1_n8_k2", "8 runs, 2"), ("c08_pair_m1_n14_k1", "14 runs, 1"), ("c08_pair_m1_n26_k1", "26 runs, 1"),
    ("c08_pair_m2_n9_k1", "M=2, 9 runs, 1"), ("c08_pair_m2_n7_k2", "M=2, 7 runs, 2"), ("c08_pair_m5_n11_k1", "M=5, 11 runs, 1"),
    ("c08_pair_join_m1_n3_k2", "joining, 3 runs, 2"), ("c08_pair_join_m1_n8_k1", "joining, 8 runs"), ("c08_pair_join_m2_n7_k1", "joining, M=2, 7 runs"), ("c08_pair_join_m5_n11_k1", "joining, M=5, 11 runs"),
    ("c08_held_m1_n4_k1", "two clones of different ages, 4 runs"), ("c08_held_m1_n4_k2", "4 runs, 2 insertions"), ("c08_held_m1_n8_k1", "8 runs"), ("c08_held_m2_n7_k1", "M=2, 7 runs"), ("c08_held_join_m1_n5_k1", "joining, 5 runs"), ("c08_held_deep_m1_n4_k1", "deep clones, 4 runs"),
    ("c08_chain_m1_n4", "clones of clones, 4 runs"), ("c08_chain_m2_n7", "M=2, 7 runs"),
    ("c08_recycled_m1_n5", "5 runs inserted in the middle, a clone, 2 insertions into either, either is dropped, 1 insertion, read from either end; the last freed node address of a layout is the next one handed out"),
    ("c08_recycled_m1_n8", "the same, 8 runs in 3 shapes, 1 insertion before the drop"), ("c08_recycled_any_m1_n4", "4 runs; every choice between fresh memory and any freed node"), ("c08_recycled_join_m1_n4", "joining, 4 runs, last freed first")]],
    [E("c08_chain_m1_n8", "clones of clones, 8 runs; " + C08B), E("c08_recycled_all_m1_n5", "as c08_recycled_m1_n5, 3 shapes; " + C08B), E("c08_recycled_any_m1_n8", "8 runs, every choice between fresh memory and any freed node; " + C08B), E("c08_recycled_m2_n9", "M=2, 9 runs; " + C08B), E("c08_chain_join_m1_n4", "clones of clones, joining, 4 runs; " + C08B), E("c08_cow_m1_n1_k4", "1 run, every sequence of 4; " + C08B), E("c08_cow_m1_n3_k3", "3 runs, every sequence of 3; " + C08B)], min_functions=20, outside=OUT + "; more than three clones at once")

C09B = "every insertion position, symbolic sizes; every call of Clone of a slice counted and compared with what the shape of the trees requires"
spec("C09", "c09", [E(n, b + "; " + C09B) for n, b in [
    ("c09_m1_n1_k2", "two clones, 1 run, 2 insertions"), ("c09_m1_n3_k2", "3 runs, 2"), ("c09_m1_n5_k2", "5 runs, 2"), ("c09_m1_n8_k1", "8 runs, 1"), ("c09_m1_n8_k2", "8 runs, 2"), ("c09_m1_n16_k1", "16 runs, 1"), ("c09_m2_n7_k2", "M=2, 7 runs, 2"), ("c09_m2_n14_k1", "M=2, 14 runs"), ("c09_m3_n20_k1", "M=3, 20 runs"), ("c09_m5_n11_k1", "M=5, 11 runs"), ("c09_m5_n24_k1", "M=5, 24 runs"),
    ("c09_join_m1_n4_k2", "joining, 4 runs, 2"), ("c09_join_m1_n8_k1", "joining, 8 runs"), ("c09_join_m2_n7_k1", "joining, M=2, 7 runs"),
    ("c09_dropped_m1_n3_k1", "a clone is changed and dropped first, 3 runs"), ("c09_dropped_m1_n8_k1", "8 runs"), ("c09_dropped_m1_n4_k2", "4 runs, 2"), ("c09_dropped_m2_n7_k1", "M=2, 7 runs"), ("c09_dropped_m5_n12_k1", "M=5, 12 runs"), ("c09_dropped_join_m1_n4_k1", "joining, 4 runs"),
    ("c09_three_m1_n4", "three clones, 4 runs"), ("c09_three_m1_n7", "three clones, 7 runs"), ("c09_three_m2_n6", "three clones, M=2, 6 runs"), ("c09_reading_m1_n5", "reading a shared tree, 5 runs"), ("c09_reading_m2_n7", "reading, M=2, 7 runs")]], min_functions=20, outside=OUT)

C13B = "every position, symbolic sizes; every use of memory checked, everything freed once at the end"
spec("C13", "c13", [E(n, b + "; " + C13B) for n, b in [
    ("c13_plain_m1_n3_k2", "3 runs, 2 operations, slices owning heap memory"), ("c13_plain_m1_n7_k1", "7 runs, 1 operation"),
    ("c13_cow_m1_n3_k3", "AllowCow, 3 runs, 3"), ("c13_cow_m1_n4_k2", "AllowCow, 4 runs, 2"), ("c13_cow_m1_n9_k1", "AllowCow, 9 runs"), ("c13_cow_m5_n12_k2", "AllowCow, M=5, 12 runs, 2"),
    ("c13_join_m1_n3_k2", "joining, 3 runs, 2"), ("c13_cow_join_m1_n3_k2", "AllowCow, joining, 3 runs, 2"), ("c13_big_m1_n4_k1", "large over-aligned slices, 4 runs"), ("c13_big_m2_n5_k2", "large slices, joining, AllowCow, M=2, 5 runs, 2"),
    ("c13_zst_m1_n3_k2", "zero-sized slices, 3 runs, 2"), ("c13_zst_cow_m1_n4_k2", "zero-sized, AllowCow, 4 runs, 2"), ("c13_zst_join_m1_n3_k1", "zero-sized, joining, 3 runs"),
    ("c13_refs_m1_n0_k3", "AllowSliceRefs, nothing, 3"), ("c13_refs_m1_n4_k2", "4 runs, 2"), ("c13_refs_m2_n5_k2", "M=2, large slices, 5 runs, 2"), ("c13_refs_m5_n10_k1", "M=5, 10 runs"), ("c13_refs_zst_m1_n3_k2", "zero-sized, 3 runs, 2"), ("c13_refs_join_m1_n3_k2", "joining, 3 runs, 2")]],
    [E(n, b + "; " + C13B) for n, b in [("c13_plain_m1_n1_k3", "1 run, sequences of 3 operations"), ("c13_refs_m1_n8_k2", "AllowSliceRefs, 8 runs, 2"), ("c13_cow_m1_n1_k3", "AllowCow, 1 run, 3"), ("c13_cow_m2_n6_k2", "AllowCow, M=2, 6 runs, 2"), ("c13_cow_join_m2_n7_k2", "AllowCow, joining, M=2, 7 runs, 2"), ("c13_refs_m1_n1_k3", "1 run, 3"), ("c13_cow_m1_n9_k2", "AllowCow, 9 runs, 2"), ("c13_refs_m1_n2_k4", "2 runs, 4"), ("c13_refs_m1_n3_k3", "3 runs, 3"), ("c13_refs_m5_n10_k2", "M=5, 10 runs, 2")]],
    min_functions=20, outside=OUT + "; aliasing violations (stacked borrows) that no load or store exposes; uninitialised reads of padding")

spec("C18", "c18", [E(n, b, covers=c) for n, b, c in [
    ("c18_round_m1_n0", "empty and singleton trees, symbolic sizes, serialised and read back", [1]), ("c18_round_m1_n4", "4 runs", [1]), ("c18_round_m1_n9", "9 runs, read into AllowSliceRefs", [1]), ("c18_round_m2_n12", "AllowSliceRefs into AllowCow, M=2, 12 runs", [1]), ("c18_round_m5_n24", "M=5, 24 runs", [1]),
    ("c18_round_i16_m1_n5", "i16 index, 5 runs", [1]), ("c18_round_join_m1_n5", "joining slices, 5 runs", [1]), ("c18_round_join_m2_n8", "joining, M=2, 8 runs", [1]),
    ("c18_write_err_m1_n4", "the serializer fails at any call, 4 runs", [1]), ("c18_write_err_m2_n7", "M=2, AllowCow, 7 runs", [1]), ("c18_write_err_refs_m1_n3", "AllowSliceRefs, 3 runs", [1]),
    *[(f"c18_input_{n}", b + ": every (symbolic) size including zero, an error at any element, any length hint", [1, 2]) for n, b in [("m1_n3", "up to 3 elements"), ("m1_n6", "up to 6"), ("cow_m2_n6", "AllowCow, M=2, up to 6"), ("refs_m1_n4", "AllowSliceRefs, up to 4"), ("join_m1_n4", "joining, up to 4"), ("i16_m1_n4", "i16 index (negative sizes), up to 4"), ("m1_n9", "up to 9"), ("m2_n14", "M=2, up to 14"), ("join_m1_n8", "joining, up to 8")]],
    ("c18_not_seq", "input that is not a sequence", [1])]], min_functions=20, outside="sequences longer than listed; totals above the index type's own range; concrete data formats (the harness is its own Serializer and Deserializer)")

spec("C19", "c19", [E(n, b) for n, b in [
    ("c19_laws_u8", "the Slice operations of Constant<u8>: every value, size and position"), ("c19_laws_boxed", "values owning memory"), ("c19_laws_nan", "values never equal to themselves"), ("c19_laws_part", "partially equal values"),
    ("c19_m1_k3", "a tree of Constant, M=1, 3 insertions at every position of symbolic values and sizes, never two equal neighbours, values at every index"), ("c19_m1_k4", "4 insertions"), ("c19_m1_n3_k2", "3 runs, 2 insertions"), ("c19_m1_n8_k1", "8 runs, 1"), ("c19_m1_n14_k1", "14 runs, 1"),
    ("c19_m2_n6_k2", "M=2, 6 runs, 2"), ("c19_m2_n12_k1", "M=2, 12 runs"), ("c19_m5_n11_k1", "M=5, 11 runs"), ("c19_cow_m1_n5_k1", "AllowCow, 5 runs"), ("c19_refs_m1_n5_k1", "AllowSliceRefs, 5 runs"), ("c19_refs_m2_n7_k1", "AllowSliceRefs, M=2, 7 runs"),
    ("c19_inside_m1_n1", "insertion of an equal value inside a run, 1 run"), ("c19_inside_m1_n5", "5 runs"), ("c19_inside_m2_n7", "M=2, 7 runs")]], min_functions=5, outside=OUT + "; insertions equal to both their neighbours (known finding join-both, C04)")

C20B = "every position, symbolic sizes, every interleaving of the atomic operations with at most 2 preemptions (unless said otherwise)"
spec("C20", "c20", [
    E("c20_two_m1_n1", "two threads, 1 run, each: insert, read, clone, clone and insert, drop, replace; at most 4 preemptions; " + C20B, preempt=4),
    E("c20_both_m1_n1", "two spawned threads, 1 run; " + C20B), E("c20_both_m1_n3", "two spawned threads, 3 runs; " + C20B),
    E("c20_two_m1_n3", "3 runs; " + C20B), E("c20_two_m1_n5", "5 runs, insert, read or drop; " + C20B), E("c20_two_m1_n5_few", "5 runs, few positions; " + C20B), E("c20_two_m1_n8_few", "8 runs, few positions; " + C20B),
    E("c20_two_m2_n6", "M=2, 6 runs; " + C20B), E("c20_two_m2_n6_few", "M=2, 6 runs, few positions; " + C20B), E("c20_two_m5_n11", "M=5, 11 runs; " + C20B), E("c20_two_m5_n11_few", "M=5, 11 runs, few positions; " + C20B),
    E("c20_two_m1_n1_k2", "two operations each, 1 run; " + C20B), E("c20_two_m1_n3_k2", "two operations each, 3 runs, few positions; " + C20B),
    E("c20_part_m1_n4", "trees sharing a part of their nodes, 4 runs; " + C20B), E("c20_part_m1_n7", "sharing a part, 7 runs; " + C20B),
    E("c20_three_m1_n1", "three threads, 1 run; " + C20B)],
    [E("c20_two_m1_n5_few4", "5 runs, few positions, at most 4 preemptions; " + C20B, preempt=4), E("c20_three_m1_n2", "three threads, 2 runs; " + C20B), E("c20_three_m1_n3", "three threads, 3 runs; " + C20B)],
    min_functions=20, outside="more threads, operations or preemptions than listed; weak-memory values (atomic reads see the latest write; missing synchronisation shows as a data race by happens-before instead); slices with interior mutability")
