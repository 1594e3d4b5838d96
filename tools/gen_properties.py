#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

T="src/tree/"
prop("C01","Insert and get agree with a plain list of runs",
 "After any sequence of insertions into an initially empty or singleton tree, the tree denotes exactly the list of (size, slice) runs obtained by performing the same insertions on a plain list: an insertion inside a run splits it there, everything at or after the insertion point shifts right by the inserted size, and nothing else changes. For every index below the total size, `get` returns the run covering it, with that run's exact range, size and slice; `size()` is the sum of the run sizes and `number_of_slices()` is the number of runs. This holds for every supported branching factor M and for every tree configuration.",
 ["histories","inputs","configurations"],"every insertion history (every position and size at each step), every lookup index, every M in 1..=127, NoFeatures/AllowCow/AllowSliceRefs",
 "The unit tests replay a few dozen fixed histories, mostly for one M; which node splits, which key moves up and how every stored offset shifts depends on the whole history and on order relations between all sizes and positions.",
 [T+"insert.rs",T+"fix.rs",T+"node.rs",T+"mod.rs"],
 [("leaf/internal insertion and node splitting","src/tree/insert.rs: insert_rhs, do_insert_no_join, do_insert_full*, BubbledInsertState"),("key offset shifting","src/tree/fix.rs: shift_keys, OpUpdateState"),("search","src/tree/mod.rs: search_step, get_with_cursor")],
 [("keys, key_pos, subtree_size","position-relative offsets stored in every node","src/tree/node.rs: Leaf")],
 ["RleTree::insert","RleTree::get","RleTree::size","RleTree::number_of_slices"])
prop("C02","Iteration yields exactly the overlapping runs, from either end",
 "For every tree and every accepted range, iterating yields exactly the runs that overlap the range, each once, in order, with the same range, size and slice that `get` reports. Any interleaving of taking from the front and from the back yields the same set of runs, front ones ascending and back ones descending, until both ends meet, after which the iterator keeps returning nothing. An empty range `..0` yields nothing, and an iterator over an empty tree with a range that touches nothing yields nothing.",
 ["histories","inputs"],"every tree shape, every range bound kind and value, every interleaving of next and next_back",
 "Tests iterate a few fixed trees, largely over the full range; the stepping logic depends on where both ends sit in the node structure when they meet.",
 [T+"iter.rs",T+"mod.rs","src/range.rs"],
 [("bidirectional cursor stepping","src/tree/iter.rs: Iter, IterState, fwd_step, bkwd_step")],
 [],["RleTree::iter","RleTree::iter_with_cursor","Iter::next","Iter::next_back"])
prop("C03","Out-of-range calls panic, and a refused call changes nothing",
 "`get` and `cursor_to` panic exactly when the index is not below the total size; `insert` panics exactly when its index exceeds the total size or the inserted size is zero; `iter` panics exactly when its range starts after its end, or its bounds are out of the documented limits; and `new` panics exactly on a zero size. After any such panic the tree still denotes the same runs, remains fully usable, and a slice whose insertion was refused has been dropped exactly once.",
 ["inputs","histories"],"every tree, every index, size and range, valid or not",
 "The tests check a handful of doc-test panics on a one-run tree and never look at the tree after a refused call.",
 [T+"mod.rs",T+"insert.rs",T+"iter.rs"],
 [("argument validation before mutation","src/tree/mod.rs: insert_internal, get_with_cursor, cursor_to; src/tree/iter.rs: Iter::new")],
 [],["RleTree::insert","RleTree::get","RleTree::cursor_to","RleTree::iter","RleTree::new"])
prop("C04","Adjacent joinable slices are joined, in order, and nothing else is",
 "When slices may join, an insertion offers the inserted slice to each neighbour it becomes adjacent to (including the two halves of a run it splits), always with the left one as receiver, and joins exactly when the slice type accepts; the resulting tree denotes the list of runs obtained by the same joins on a plain list. Every value position keeps the contents it would have in that list, and total size grows by exactly the inserted size. Slices that may not join are never offered.",
 ["histories","inputs"],"every insertion history of slices with any (deterministic, position-independent or order-sensitive) join predicate",
 "Each join outcome (left only, right only, none, both) combines with every structural case (leaf, internal node, full node, root split); tests cover a few of the products.",
 [T+"insert.rs","src/public_traits.rs","src/lib.rs"],
 [("join attempts","src/tree/insert.rs: try_join logic in insert_internal, insert_rhs, do_insert_full_split_key, handle_join_deletion")],
 [],["RleTree::insert","RleTree::iter","Slice::try_join calls observed by the slice type"])
prop("C05","Cursor hints never change any result",
 "Passing any cursor whatsoever as a hint -- stale, from another position, from another tree, or arbitrary -- to lookup, iteration or insertion gives exactly the result of the same call without a hint.",
 ["inputs","histories"],"every tree, every path a Cursor implementation can replay (any components obtainable from any tree, in any order and number), every operation taking a cursor",
 "Tests only use BoundedCursor values returned by the immediately preceding insertion; wrong or foreign hints are never tried.",
 [T+"mod.rs",T+"iter.rs",T+"insert.rs"],
 [("hint validation","src/tree/mod.rs: search_step")],
 [],["RleTree::get_with_cursor","RleTree::iter_with_cursor","RleTree::insert_with_cursor"])
prop("C06","Returned cursors are the true path",
 "The cursor returned by an insertion, by `cursor_to`, by an entry or by a slice reference is the path to the slice in question, in the tree as it is then, so that all the ways of getting a cursor to the same slice agree, and distinct slices that are in different nodes have different paths. This also holds on copy-on-write trees whose nodes are shared with clones.",
 ["histories","inputs","configurations"],"every insertion history (with clones and drops of clones in COW trees), every slice of the resulting tree",
 "No test compares cursors across operations; COW trees with shared nodes have stale parent links that only particular clone/insert/drop orders expose.",
 [T+"mod.rs",T+"insert.rs",T+"entry.rs",T+"slice_ref.rs","src/cursor.rs"],
 [("path building","src/tree/mod.rs: cursor_to; src/tree/insert.rs: CursorBuilder use; src/tree/entry.rs: cursor_to_handle")],
 [],["RleTree::cursor_to","RleTree::insert_with_cursor","SliceEntry::cursor","SliceRef::cursor"])
prop("C07","BoundedCursor replays the root-most components in order",
 "A `BoundedCursor<LEN>` that has been given any sequence of path components, last to first, replays them first to last; when given more than LEN it replays exactly the first LEN of the path. A cursor that was given nothing replays nothing, and LEN = 0 is inert.",
 ["inputs"],"every LEN in 0..=255, every sequence of components of any length",
 "No test reads back a BoundedCursor's components.",
 ["src/cursor.rs"],[("ring-free inline buffer","src/cursor.rs: BoundedCursor::{new_empty,prepend_to_path,next}")],
 [("start_at","index of the first stored component","src/cursor.rs: BoundedCursor")],["Cursor for BoundedCursor"])
prop("C08","Clones are isolated from each other",
 "A clone of a tree (deep or copy-on-write) denotes the same runs as the original at the moment of cloning, and from then on no operation on one of them -- insertion, cloning, iteration or dropping, in any order -- changes what any other denotes. This includes clones of clones and trees whose nodes have been partially un-shared.",
 ["histories","inputs","configurations"],"every history of insertions, clones and drops over a family of trees",
 "Tests clone at one point of one history; sharing patterns multiply with each clone and depend on drop order.",
 [T+"cow.rs",T+"node.rs",T+"insert.rs",T+"mod.rs","src/param.rs"],
 [("reference-counted nodes","src/param.rs: StrongCount; src/tree/node.rs: make_unique, clone handling"),("un-sharing along the insertion path","src/tree/insert.rs, src/tree/node.rs")],
 [("strong counts","number of owners of a node","src/tree/node.rs: Leaf")],["RleTree::clone","RleTree::insert","RleTree::iter","Drop"])
prop("C09","Copy-on-write copies only what an insertion must change",
 "Cloning a copy-on-write tree clones no slice at all, and an insertion into it clones only slices held by shared nodes on the path to the insertion point or to a run adjacent to it, each at most once, never the rest of the tree; an insertion into a tree that shares nothing clones no slice. Dropping a clone likewise returns the survivor to sharing nothing.",
 ["histories","inputs"],"every history of insertions, clones and drops",
 "No test counts clones.",
 [T+"cow.rs",T+"node.rs",T+"insert.rs"],[("make_unique","src/tree/node.rs")],[],["Clone calls observed by the slice type"])
prop("C10","Slice references keep designating their slice",
 "A reference made from an entry keeps designating that same slice through any later insertions: it stays valid, and its borrow, range and cursor are those of the slice's current place in the tree (its left part, if the slice has been split). Clones of a reference designate the same slice, references to different slices never alias, and creating or dropping references never affects any other reference or the tree.",
 ["histories","inputs"],"every history of insertions, reference creations, clones and drops",
 "Tests make a few references and insert a few times; the bookkeeping of moved keys differs for every structural case of insertion.",
 [T+"slice_ref.rs",T+"insert.rs",T+"fix.rs",T+"node.rs","src/recycle.rs"],
 [("reference redirection on node changes","src/tree/slice_ref.rs: SliceRefStore; src/tree/insert.rs: TraverseUpdate"),("id recycling","src/recycle.rs")],
 [("refs store","slot per reference id","src/tree/slice_ref.rs: InnerStore")],["SliceRef::borrow_slice","SliceRef::range","SliceRef::is_valid","SliceRef::cursor","SliceEntry::make_ref"])
prop("C11","insert_ref designates what was inserted",
 "The reference returned by an insertion designates the inserted slice, or the joined slice that now contains the inserted one, exactly as a reference made from `get` at the insertion point would, and it keeps doing so afterwards.",
 ["histories","inputs"],"every insertion history, every join outcome",
 "The structural cases of an insertion that end with the inserted slice moved to another node are not all reached by tests.",
 [T+"insert.rs",T+"slice_ref.rs"],[("post-insert handle","src/tree/insert.rs: PostInsertTraversalState, TraverseUpdate")],[],["RleTree::insert_ref","RleTree::insert_ref_with_cursor"])
prop("C12","Borrow discipline between references and the tree",
 "While a borrow obtained through a slice reference is alive, insertion into the tree and nothing else is refused (it panics and changes nothing), reads and reference operations still work, and the borrowed value stays readable and unchanged. Dropping the tree while borrows are alive keeps the borrowed slice readable until the last borrow ends; from the moment the tree is dropped every reference reports itself invalid and not borrowable, `try_` accessors return nothing, the others panic, and cloning or dropping references stays harmless. `can_borrow` tells exactly whether a borrow would succeed.",
 ["histories"],"every interleaving of insert, make_ref, clone, borrow, map, drop of borrow, drop of reference, drop of tree",
 "Tests cover three short sequences.",
 [T+"slice_ref.rs"],[("borrow state","src/tree/slice_ref.rs: BorrowState, SliceRefStore")],[("borrow state","shared/exclusive/dropped","src/tree/slice_ref.rs")],["SliceRef::*","Borrow::*","RleTree::insert","RleTree drop"])
prop("C13","Every slice is dropped exactly once and no memory is misused or leaked",
 "In every history of public operations, with any configuration, each slice value is dropped exactly once, nothing is read after being freed, moved out or before being initialised, no memory is accessed outside an allocation or freed twice, and after everything has been dropped no allocation remains.",
 ["histories","inputs","configurations"],"every history of insertions, lookups, iterations, clones, reference operations and drops",
 "The code is built on raw pointers and uninitialised arrays; ordinary tests do not observe memory misuse and the few histories they run sample almost none of the pointer-moving cases.",
 [T+"node.rs",T+"insert.rs",T+"fix.rs",T+"slice_ref.rs",T+"cow.rs","src/recycle.rs"],
 [("typed node handles over raw pointers","src/tree/node.rs"),("drop","src/tree/mod.rs: destruct_root; src/tree/node.rs: do_drop")],[],["all public operations, under a memory-checking executor"])
prop("C14","A panic in user code during an insertion does no harm",
 "If the slice type's split, join, clone or drop operation, or the index type, panics in the middle of an operation and the panic is caught, no memory is misused then or later: the tree can still be queried, iterated and dropped (possibly by panicking again), no slice is dropped twice or used after being moved out, and a panic while a copy-on-write tree is being un-shared leaves its clones intact.",
 ["fault_sequences","histories"],"every insertion history, with a panic injected at any single call of a user-supplied operation",
 "No test panics inside a user callback.",
 [T+"insert.rs",T+"node.rs",T+"slice_ref.rs"],[("holes marking moved-out slices","src/tree/node.rs: Leaf::holes, is_hole"),("mutable-borrow poisoning of the reference store","src/tree/slice_ref.rs")],[("holes","key positions whose slice is moved out","src/tree/node.rs: Leaf")],["RleTree::insert under catch_unwind, then get/iter/drop"])
prop("C15","Range bounds have the semantics of the ranges they describe",
 "For every standard range type, pair of bounds, and reference to one, over any ordered type: `contains(x)` holds exactly for the values the standard range contains, `starts_after_end` and the documented emptiness test hold exactly when both ends are bounded and no value can lie between them by order, and `overlaps_naive` is symmetric and, when the two ranges share no unbounded side, true exactly when some value lies in both (for dense or integer orders as documented). Cloning bounds preserves them.",
 ["inputs"],"every pair of ranges of every kind with any bound values",
 "range.rs has no tests of its own beyond one doc-test.",
 ["src/range.rs"],[("RangeBounds provided methods and impls","src/range.rs")],[],["range::RangeBounds"])
prop("C16","Non-commutative index types are supported",
 "With an index type whose addition is not commutative but satisfies the documented laws of directional arithmetic, all positions, ranges and sizes reported by the tree after any history of insertions are those of the list of runs: every run's start is the in-order sum of the sizes before it. The tree only ever asks the index type for operations that the documentation allows: it never subtracts a value from a smaller one.",
 ["histories","inputs"],"an index type satisfying the documented laws whose addition does not commute (a non-abelian group ordered by length), every history, every size",
 "All tests use integers, for which left and right operations coincide.",
 [T+"fix.rs",T+"insert.rs",T+"mod.rs",T+"entry.rs",T+"iter.rs","src/public_traits.rs"],[("directional arithmetic","src/public_traits.rs: DirectionalAdd, DirectionalSub and all their uses in src/tree")],[],["SliceEntry::range","SliceEntry::size","RleTree::size","SliceRef::range"])
prop("C17","The tree stays balanced",
 "After any history, all lookups take a path of at most logarithmic length: every slice's path is no longer than the height allowed for a B-tree with minimum M and maximum 2M keys per node holding that number of slices, and path components never exceed 2M.",
 ["histories"],"every insertion history, every M",
 "Tests do not measure depth; a tree that degenerates still returns right answers.",
 [T+"insert.rs",T+"node.rs"],[("node splitting at 2M keys","src/tree/insert.rs: split positions")],[],["path lengths seen by a Cursor implementation"])
prop("C18","Serialized trees round-trip, and malformed input is an error",
 "Serializing any tree produces the sequence of its (size, slice) runs in order, and deserializing that sequence yields a tree denoting the same runs (up to joins the slice type asks for). Deserializing a sequence that no tree can produce (for instance with a zero size) or whose source reports an error returns an error and leaks nothing, rather than panicking (a sequence whose total exceeds the index type's own range is that type's overflow, not the tree's).",
 ["inputs","histories"],"every tree, every input sequence, an input error at any element",
 "One round-trip of one tree is tested.",
 ["src/serde.rs"],[("visit_seq inserting at the end","src/serde.rs")],[],["Serialize for RleTree","Deserialize for RleTree"])
prop("C19","Constant is a lawful run",
 "For `Constant<T>`: splitting at any index gives two slices equal to the original, joining succeeds exactly when the values are equal and then yields that value, and a refused join gives both slices back unchanged and in order; hence a tree of constants always denotes a sequence with the same value at every position as a plain array built by the same insertions, with no two adjacent equal runs created by an insertion.",
 ["inputs","histories"],"every value and history",
 "Only sampled by examples.",
 ["src/lib.rs",T+"insert.rs"],[("Slice for Constant","src/lib.rs")],[],["Constant, RleTree<_, Constant<_>>"])
prop("C20","Copy-on-write trees may be used from several threads",
 "When clones of one copy-on-write tree are used by different threads (each mutating, reading, cloning or dropping its own clone), every interleaving is free of data races and gives each thread exactly what it would see alone; each shared node is freed exactly once, after its last use.",
 ["schedules","histories"],"every interleaving of the atomic steps of the threads, every history",
 "One threaded test exists at most and explores a handful of schedules.",
 [T+"cow.rs",T+"node.rs",T+"insert.rs"],[("atomic strong counts with acquire/release","src/tree/cow.rs")],[("strong count","atomic","src/tree/cow.rs")],["RleTree<AllowCow> used by several threads"])
prop("C21","Removal by drain yields exactly the drained runs",
 "Draining a range yields exactly the parts of runs inside the range, in order from either end, and leaves the tree denoting the runs outside it.",
 ["histories","inputs"],"every tree and range","No test exists.",
 [T+"drain.rs",T+"mod.rs"],[("Drain","src/tree/drain.rs")],[],["RleTree::drain"])
prop("C22","Thread-safety bounds admit only sound sharing",
 "Trees, entries, iterators, references and borrows may be sent to or shared with other threads only when their contents and configuration make that sound.",
 ["programs"],"every instantiation","Compile-time property.",
 [T+"mod.rs",T+"entry.rs",T+"slice_ref.rs"],[("Send/Sync impls","src/tree/mod.rs")],[],["trait bounds"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p,s)
except ImportError: pass
for p in P: assert len(p["title"])<=80
