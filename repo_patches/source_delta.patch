From a8f67304fc486f93abf437b8ec2c5abb9a996f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 01/12] fix: cursor_to on copy-on-write trees descends into
 shared children

The recursion for a child whose parent link belongs to another tree was
called with the node itself instead of the child, and a parent link to the
right node but the wrong child index was trusted.
---
 src/tree/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tree/mod.rs b/src/tree/mod.rs
index f4988a6..da4c07d 100644
--- a/src/tree/mod.rs
+++ b/src/tree/mod.rs
@@ -493,9 +493,12 @@ where
                             let child = unsafe { n.into_child(c_idx) };
                             // note: adding P::COW means the compiler knows it will always be false
                             let mismatched_parent = P::COW
-                                && matches!(child.leaf().parent(), Some(p) if p.ptr != n.ptr());
+                                && !matches!(
+                                    child.leaf().parent(),
+                                    Some(p) if p.ptr == n.ptr() && p.idx_in_parent == c_idx
+                                );
                             if mismatched_parent {
-                                let mut c: C = recurse(node, target);
+                                let mut c: C = recurse(child, target);
                                 c.prepend_to_path(PathComponent { child_idx: c_idx });
                                 break c;
                             }
-- 
2.43.0


From 2479a96d28e899bb6d95a809f9ea0f9600043aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:10 +0000
Subject: [PATCH 02/12] fix: BoundedCursor replays every component it was given

Components were stored one place after the start of the path, so the last
component of the path was replaced by a filler (or the path was off by one).
---
 src/cursor.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/cursor.rs b/src/cursor.rs
index 5ffc1b2..c24824b 100644
--- a/src/cursor.rs
+++ b/src/cursor.rs
@@ -96,8 +96,7 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     fn new_empty() -> Self {
         let len_u8 = match u8::try_from(LEN) {
             Err(_) => panic!("tried to construct BoundedCursor with LEN > u8::MAX"),
-            Ok(0) => 0,
-            Ok(len) => len - 1,
+            Ok(len) => len,
         };
 
         BoundedCursor {
@@ -107,17 +106,17 @@ impl<const LEN: usize> Cursor for BoundedCursor<LEN> {
     }
 
     fn prepend_to_path(&mut self, component: PathComponent) {
-        if self.start_at == 0 {
-            if LEN == 0 {
-                return;
-            }
+        if LEN == 0 {
+            return;
+        }
 
-            // if the cursor is already full,
+        if self.start_at == 0 {
+            // if the cursor is already full, forget the deepest component to make room
             self.path.copy_within(0..LEN - 1, 1);
             self.path[0] = component;
         } else {
-            self.path[self.start_at as usize] = component;
             self.start_at -= 1;
+            self.path[self.start_at as usize] = component;
         }
     }
 
-- 
2.43.0


From 84d05cc0ad02383f4db525190c2bb119a8a49711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 03/12] fix: cursor of an insertion joined with the left half
 of a split run

The cursor must lead to the left half, but it kept the step to the child the
right half was inserted in when that was below an internal key, and followed
the inserted right half rather than the left one when nodes were split.
---
 src/tree/fix.rs    | 20 +++++++++++++++--
 src/tree/insert.rs | 53 ++++++++++++++--------------------------------
 2 files changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index 2e53b2c..f74b181 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -66,12 +66,15 @@ pub(super) trait MapState {
 ///
 /// Both functions are provided the [`NodeHandle`] taken from `child_or_key` to allow functions
 /// using extra context.
+///
+/// The `cursor` function returns whether the cursor should end at the node, i.e. whether the child
+/// containing the change (if there is one) should be left out of the path.
 pub(super) struct MapOpUpdateState<'f, 't, I, S, P: RleTreeConfig<I, S, M>, const M: usize> {
     pub(super) cursor: Option<
         &'f mut (dyn for<'c> FnMut(
             &NodeHandle<ty::Unknown, borrow::Mut<'t>, I, S, P, M>,
             CursorBuilder<'c>,
-        )),
+        ) -> bool),
     >,
     pub(super) sizes: Option<
         &'f mut dyn FnMut(
@@ -115,8 +118,9 @@ where
             ChildOrKey::Child((ci, n)) => (n.untyped_mut(), ChildOrKey::Child(*ci)),
         };
 
+        let mut cursor_ends_here = false;
         if let Some(map_cursor) = f.cursor.as_mut() {
-            map_cursor(node, self.cursor_builder.reborrow());
+            cursor_ends_here = map_cursor(node, self.cursor_builder.reborrow());
         }
 
         if let Some(map_sizes) = f.sizes.as_mut() {
@@ -130,6 +134,18 @@ where
             self.new_size = new_sizes.new_size;
         }
 
+        // If the cursor isn't supposed to go through the child, describe the change as one to the
+        // key before it. The position given by `override_pos` stays the same.
+        if cursor_ends_here {
+            self.child_or_key = match self.child_or_key {
+                ChildOrKey::Child((ci, n)) => {
+                    debug_assert!(self.override_pos.is_some());
+                    ChildOrKey::Key((ci - 1, n.erase_type()))
+                }
+                key => key,
+            };
+        }
+
         self
     }
 }
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index b9047af..2053043 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1109,51 +1109,30 @@ where
                 sizes
             };
 
-        // Track the position of the inserted `fst`, so that we can update
-        let fst_handle: Cell<Option<(node::NodePtr<I, S, P, M>, u8, u8)>> = Cell::new(None);
-
         let remap_cursor = cursor_mode == CursorMode::Lhs && !cursor_builder.is_nop();
 
-        let mut new_updates_callback;
-        let updates_callback: UpdatesCallback<I, S, P, M> = if remap_cursor {
-            new_updates_callback = |upd: TraverseUpdate<I, S, P, M>| {
-                match (&upd, fst_handle.get()) {
-                    (&TraverseUpdate::Insertion { ptr, height, idx }, None) => {
-                        fst_handle.set(Some((ptr, height, idx)));
-                    }
-                    (
-                        TraverseUpdate::Move { old_ptr, old_range, new_ptr, new_height, new_range },
-                        Some((fst_ptr, _, fst_idx)),
-                    ) if *old_ptr == fst_ptr && old_range.contains(&fst_idx) => {
-                        let new_idx = new_range.start + (old_range.start - fst_idx);
-
-                        fst_handle.set(Some((*new_ptr, *new_height, new_idx)));
-                    }
-                    _ => (),
-                }
-
-                updates_callback(upd);
-            };
-            &mut new_updates_callback
-        } else {
-            updates_callback
-        };
-
         let mut map_cursor = |node: &ty![NodeHandle], mut builder: CursorBuilder| {
-            if node.height() == lhs_height {
+            let is_lhs_node = node.height() == lhs_height;
+            if is_lhs_node {
                 builder.reset();
             }
+            is_lhs_node
         };
 
-        let mut map_cursor_side = |lhs: &ty![NodeHandle], mut side| {
-            if lhs.height() == lhs_height {
-                match fst_handle.get() {
-                    None => side = Some(Side::Left),
-                    Some((ptr, _, 0)) if ptr != lhs.ptr() => side = None,
-                    _ => (),
-                }
+        // If the node containing `lhs` was split, work out which side of the split `lhs` ended up on.
+        // Everything that has been added to the node was added to the right of `lhs`, so its index
+        // is still `lhs_k_idx`, counting across the left-hand node, the midpoint, and then the
+        // right-hand node.
+        let mut map_cursor_side = |lhs: &ty![NodeHandle], side| {
+            if lhs.height() != lhs_height {
+                return side;
+            }
+
+            match lhs_k_idx.cmp(&lhs.leaf().len()) {
+                Ordering::Less => Some(Side::Left),
+                Ordering::Equal => None,
+                Ordering::Greater => Some(Side::Right),
             }
-            side
         };
 
         let mut mapper = MapBubbledInsertState {
-- 
2.43.0


From 37a77fe046df9a09ce0ad85751be7db83cab12f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:26 +0000
Subject: [PATCH 04/12] fix: insertion handle follows an internal key moved by
 a node split

---
 src/tree/insert.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index 2053043..e18f983 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -2187,6 +2187,27 @@ where
             let inserted_handle = unsafe { insert_into.borrow().into_slice_handle(new_key_idx) };
             updates_callback(make_update(&inserted_handle));
 
+            // Signal the split. If the insertion was joined with the key immediately to the left of
+            // `self.lhs`, it's possible that this node was the one containing it. That key can only
+            // have moved if it was to the right of `midpoint_idx`, or if it *is* the midpoint. The
+            // update for the midpoint must come after the `PutBack` of `self.key` above; it will
+            // have its own `PutBack` once it's been placed into the parent of this node.
+            if let Side::Right = side {
+                let rhs_ref = rhs.as_ref();
+                updates_callback(TraverseUpdate::Move {
+                    old_ptr: parent.ptr(),
+                    old_range: midpoint_idx + 1..midpoint_idx + 1 + new_key_idx,
+                    new_ptr: rhs_ref.ptr(),
+                    new_height: rhs_ref.height(),
+                    new_range: 0..new_key_idx,
+                });
+                updates_callback(TraverseUpdate::Remove {
+                    ptr: parent.ptr(),
+                    height: parent.height(),
+                    idx: midpoint_idx,
+                });
+            }
+
             BubbleStepResult::KeepGoing(BubbledInsertState {
                 lhs: parent.erase_type(),
                 key: midpoint_key,
-- 
2.43.0


From fad83b47ae38aca9b609087ca768e50442c3b4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 05/12] fix: count clones of slice references made after the
 tree was dropped

---
 src/tree/slice_ref.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 5442c00..0ef5c23 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -844,11 +844,14 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
 /// Cloning a `SliceRef` -- even an invalid one -- is always possible, and will never panic
 impl<I, S, const M: usize> Clone for SliceRef<I, S, M> {
     fn clone(&self) -> Self {
+        // Every `SliceRef` -- including ones that no longer refer to anything -- keeps the allocation
+        // of the `InnerStore` alive, so all of them need to be counted.
+        bump_weak_count(&self.inner().weak_count);
+
         let id = self.id.take().and_then(|this_id| match self.get_refs_without_borrow() {
             None => None,
             Some(r) => {
                 let refs = r.borrow();
-                bump_weak_count(&self.inner().weak_count);
                 let new_id = refs.clone(&this_id);
                 self.id.set(Some(this_id));
                 Some(new_id)
-- 
2.43.0


From 1c149dba2c2bef54950337064cc461fc139b9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 06/12] fix: slice references are invalid once the tree is
 dropped, even while borrowed

---
 src/tree/slice_ref.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/tree/slice_ref.rs b/src/tree/slice_ref.rs
index 0ef5c23..0961bb8 100644
--- a/src/tree/slice_ref.rs
+++ b/src/tree/slice_ref.rs
@@ -499,16 +499,18 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
                 drop_if_zero: false,
             }),
             BorrowState::Mutable => Err(BorrowFailure::CannotGetImmutAlreadyMutablyBorrowed),
-            BorrowState::Immutable { mut count, drop_if_zero } => {
+            BorrowState::Immutable { mut count, drop_if_zero: false } => {
                 count = count
                     .checked_add(1)
                     .expect("there should be fewer than usize::MAX concurrent borrows");
 
-                Ok(BorrowState::Immutable { count, drop_if_zero })
-            }
-            BorrowState::Dropping | BorrowState::Dropped => {
-                Err(BorrowFailure::CannotGetImmutAlreadyDropped)
+                Ok(BorrowState::Immutable { count, drop_if_zero: false })
             }
+            // Even though there's still borrows keeping the contents of the tree alive, the tree
+            // itself has been dropped and there's nothing left in `inner.refs`.
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Dropping
+            | BorrowState::Dropped => Err(BorrowFailure::CannotGetImmutAlreadyDropped),
         };
 
         res.map(|new_state| {
@@ -521,10 +523,12 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
     fn get_refs_without_borrow(&self) -> Option<&RefCell<RecycleVec<StoredSliceRef<I, S, M>>>> {
         let inner = self.inner();
         match inner.borrow.get() {
-            BorrowState::NotBorrowed | BorrowState::Immutable { .. } | BorrowState::Mutable => {
-                Some(&inner.refs)
-            }
-            BorrowState::Dropping | BorrowState::Dropped => None,
+            BorrowState::NotBorrowed
+            | BorrowState::Immutable { drop_if_zero: false, .. }
+            | BorrowState::Mutable => Some(&inner.refs),
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Dropping
+            | BorrowState::Dropped => None,
         }
     }
 
@@ -655,8 +659,11 @@ impl<I, S, const M: usize> SliceRef<I, S, M> {
     /// [`is_valid`]: Self::is_valid
     pub fn can_borrow(&self) -> bool {
         match self.inner().borrow.get() {
-            BorrowState::NotBorrowed | BorrowState::Immutable { .. } => true,
-            BorrowState::Mutable | BorrowState::Dropping | BorrowState::Dropped => false,
+            BorrowState::NotBorrowed | BorrowState::Immutable { drop_if_zero: false, .. } => true,
+            BorrowState::Immutable { drop_if_zero: true, .. }
+            | BorrowState::Mutable
+            | BorrowState::Dropping
+            | BorrowState::Dropped => false,
         }
     }
 
-- 
2.43.0


From f37cd6a8cfba194e3d7f881dc73c351315506f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 07/12] fix: a leaf with one hole recognises it

---
 src/tree/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c2fe71b..c49bfda 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2737,7 +2737,7 @@ where
         //
         // It's worth optimizing this function in this way because `is_hole` may be quite hot.
         let hole_x = self.holes[0].map(|x| x.get()).unwrap_or(0); // no-op
-        let hole_y = self.holes[0].map(|y| y.get()).unwrap_or(0); // no-op
+        let hole_y = self.holes[1].map(|y| y.get()).unwrap_or(0); // no-op
 
         let plus_one = k_idx + 1;
         plus_one == hole_x || plus_one == hole_y
-- 
2.43.0


From 45e36c0626fbda4752ccc8a5cdf57d40a8eeecdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 08/12] fix: inserting into a node that has a hole panics
 instead of misplacing the hole

---
 src/tree/node.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tree/node.rs b/src/tree/node.rs
index c49bfda..ec5f1b0 100644
--- a/src/tree/node.rs
+++ b/src/tree/node.rs
@@ -2164,6 +2164,11 @@ where
             weak_assert!(self.leaf().len < self.leaf().max_len());
         }
 
+        // A previous panic may have left a hole here, which shifting the values would invalidate.
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let refid = UnsafeCell::new(<resolve![P::SliceRefStore::OptionRefId]>::default());
 
         let this_ptr = self.ptr;
@@ -2467,6 +2472,11 @@ where
             weak_assert!(self.height.as_u8() - 1 == child.height);
         }
 
+        // A previous panic may have left a hole here, which shifting the values would invalidate.
+        if self.leaf().has_holes() {
+            panic_invalid_state();
+        }
+
         let this_ptr = self.ptr;
         let height = self.height.as_u8();
         let pos = self.leaf().try_key_pos(key_idx).unwrap_or(self.leaf().total_size);
-- 
2.43.0


From 97394e24322645067a9f322cbf324a07352b7e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:19 +0000
Subject: [PATCH 09/12] fix: keys are shifted and sizes computed on the side
 the index arithmetic asks for

Key positions were shifted by new_end.sub_left(old_end), child positions computed by
removing a child's size from the left of the next key's position, and an entry's size
by removing its start from the right of its end. With an index type whose addition
does not commute, positions after an insertion were wrong.
---
 src/tree/entry.rs  | 2 +-
 src/tree/fix.rs    | 6 +++---
 src/tree/insert.rs | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree/entry.rs b/src/tree/entry.rs
index 37ed52c..fc51234 100644
--- a/src/tree/entry.rs
+++ b/src/tree/entry.rs
@@ -89,7 +89,7 @@ where
     ///
     /// This is essentially a convenience method roughly equivalent to `self.range().len()`.
     pub fn size(&self) -> I {
-        self.range_end.sub_right(self.range_start)
+        self.range_end.sub_left(self.range_start)
     }
 
     /// Returns a reference to the slice for this entry
diff --git a/src/tree/fix.rs b/src/tree/fix.rs
index f74b181..0e38247 100644
--- a/src/tree/fix.rs
+++ b/src/tree/fix.rs
@@ -555,7 +555,7 @@ where
                         .leaf()
                         .try_key_pos(c_idx)
                         .unwrap_or_else(|| node.leaf().subtree_size());
-                    next_key_pos.sub_left(self.old_size)
+                    next_key_pos.sub_right(self.old_size)
                 });
 
                 (node.erase_type(), c_idx, Some(c_idx), pos)
@@ -746,7 +746,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     // Of course, this is only valid if `new_end < old_end` -- so if `IS_INCREASE` is false.
     // Naturally, there's a rephrasing for when `new_end > old_end`:
     //
-    //   k_pos.add_left(new_end.sub_left(old_end))           FIXME: prove this?
+    //   k_pos.add_left(new_end.sub_right(old_end))
     //
     // This one is to be used when `IS_INCREASE` is true.
     //
@@ -758,7 +758,7 @@ pub(super) unsafe fn shift_keys<'t, Ty, I, S, P, const M: usize, const IS_INCREA
     let new_end = pos.add_right(new_size);
 
     let abs_difference = match IS_INCREASE {
-        true => new_end.sub_left(old_end),
+        true => new_end.sub_right(old_end),
         false => old_end.sub_right(new_end),
     };
 
diff --git a/src/tree/insert.rs b/src/tree/insert.rs
index e18f983..ae44003 100644
--- a/src/tree/insert.rs
+++ b/src/tree/insert.rs
@@ -1076,7 +1076,7 @@ where
                             .leaf()
                             .try_key_pos(c_idx)
                             .unwrap_or_else(|| node.leaf().subtree_size());
-                        next_key_pos.sub_left(sizes.old_size)
+                        next_key_pos.sub_right(sizes.old_size)
                     }
                 });
 
-- 
2.43.0


From 0bd0b42046caf8b731e32132c868e88b5ad6227b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 10/12] fix: deserializing a slice of size zero is an error
 instead of a panic

---
 src/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index 4c043ef..bb44722 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -49,7 +49,11 @@ where
 
     fn visit_seq<A: de::SeqAccess<'de>>(self, mut seq: A) -> Result<Self::Value, A::Error> {
         let mut this = RleTree::new_empty();
-        while let Some((size, slice)) = seq.next_element()? {
+        while let Some((size, slice)) = seq.next_element::<(I, S)>()? {
+            if size <= I::ZERO {
+                return Err(de::Error::custom("the size of a slice must be greater than zero"));
+            }
+
             let idx = this.size();
             this.insert(idx, slice, size);
         }
-- 
2.43.0


From 5d1d6e89e4f5cabbdb7b4136d05d5038caf28bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:24 +0000
Subject: [PATCH 11/12] fix: an exhausted RangeInclusive no longer contains its
 end

---
 src/range.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/range.rs b/src/range.rs
index 0f7dd19..25f443d 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -14,7 +14,7 @@
 
 #[cfg(feature = "fuzz")]
 use arbitrary::Arbitrary;
-use std::ops::{Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
+use std::ops::{self, Bound, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo, RangeToInclusive};
 
 /// The starting bound of a range
 ///
@@ -236,7 +236,13 @@ impl<T> RangeBounds<T> for RangeInclusive<T> {
         StartBound::Included(self.start())
     }
     fn end_bound(&self) -> EndBound<&T> {
-        EndBound::Included(self.end())
+        // A `RangeInclusive` that has been iterated over to completion no longer contains its end;
+        // the standard library's `RangeBounds` is the only place where that's visible for every `T`.
+        match ops::RangeBounds::end_bound(self) {
+            Bound::Included(end) => EndBound::Included(end),
+            Bound::Excluded(end) => EndBound::Excluded(end),
+            Bound::Unbounded => EndBound::Unbounded,
+        }
     }
 }
 impl<T> RangeBounds<T> for RangeInclusive<&T> {
-- 
2.43.0


From bae98bbe3fd1e528ba7963d6c794d98b307a4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 12/12] fix: iterating a copy-on-write tree remembers the way
 down past every stale parent

A child reached while descending more than one level was compared with the node
the descent started from instead of with its own parent. A stale parent pointer
to freed memory that has since become that node was taken for the real parent.
---
 src/tree/iter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree/iter.rs b/src/tree/iter.rs
index a882570..b2e2525 100644
--- a/src/tree/iter.rs
+++ b/src/tree/iter.rs
@@ -394,7 +394,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx))
                             }
                             _ => (),
@@ -486,7 +486,7 @@ where
                     let child = unsafe { parent.into_child(c_idx) };
                     if P::COW {
                         match child.leaf().parent().map(|p| (p.ptr, p.idx_in_parent)) {
-                            Some(pair) if pair != (node.ptr(), c_idx) => {
+                            Some(pair) if pair != (parent.ptr(), c_idx) => {
                                 self.stack.push((parent.erase_type(), c_idx));
                             }
                             _ => (),
-- 
2.43.0

