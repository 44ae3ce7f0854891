From 0c8ef3e4a9af22812fadfd769f06f11c5b4482aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 01/17] fix: track the new last sibling when the last sibling
 is unlinked

Unlinking the last of multiple siblings left the cyclic reference of the
first sibling pointing to the unlinked node, so that the parent kept
returning it as the last child, and nodes appended later were lost.
---
 src/node/edit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..4f464ba 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -73,6 +73,9 @@ impl<'a, T> OrphanRoot<'a, T> {
         //  * node_to_unlink --> next_sibling
         //      * node_to_unlink.next_sibling (if available)
         //      * next_sibling.prev_sibling_cyclic (if available)
+        //  * first_sibling --> node_to_unlink
+        //      * first_sibling.prev_sibling_cyclic (if `node_to_unlink` is the
+        //        last sibling and is not the only sibling)
 
         let parent = node_to_unlink.parent_link();
         let prev_sibling = node_to_unlink.prev_sibling_link();
@@ -95,6 +98,9 @@ impl<'a, T> OrphanRoot<'a, T> {
         }
         if let Some(next_sibling) = next_sibling {
             next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
+        } else if let Some(first_sibling) = parent.and_then(|parent| parent.first_child_link()) {
+            // `node_to_unlink` was the last sibling, and `prev_sibling` is the new last sibling.
+            first_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
         }
 
         // Update `node_to_unlink`.
-- 
2.43.0


From fce973a39ee7a928be7a24602e037302a22fd1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 02/17] fix: track the new last sibling when the last leaf is
 replaced with its (no) children

---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 4f464ba..653d1b3 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -681,6 +681,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    // `prev_sibling_link` is the new last sibling.
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From defa7e9ed25a1312772b153d2e8fa7d6d02edc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/17] fix: reject an invalid move before unlinking the
 subtree

Moving a node under itself or its descendant made an unreachable cycle, and
moving a node as a sibling of itself or of a root node returned an error
after the subtree had been unlinked (and possibly moved to another tree).
Moving the root into its own tree reported success without doing anything,
while it is documented to fail.
---
 src/node/edit.rs | 58 ++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 653d1b3..48ee9ce 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -339,6 +339,53 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
     orphan_this.create_new_tree();
 }
 
+/// Effect of moving a subtree to a valid destination.
+#[derive(Clone, Copy, PartialEq, Eq)]
+enum MoveEffect {
+    /// The node is already at the destination.
+    None,
+    /// The node can be unlinked and then inserted to the destination.
+    Relocate,
+}
+
+/// Checks whether the node can be moved to the destination, without modifying the hierarchy.
+///
+/// # Failures
+///
+/// Fails if:
+///
+/// * the destination is a sibling of the root node
+///   ([`HierarchyError::SiblingsWithoutParent`]), or
+/// * the node is the parent of the destination or its ancestor
+///   ([`HierarchyError::AncestorDescendantLoop`]).
+fn ensure_movable<T>(
+    this: &NodeCoreLink<T>,
+    dest: InsertAs<&NodeCoreLink<T>>,
+) -> Result<MoveEffect, HierarchyError> {
+    let new_parent = match dest {
+        InsertAs::FirstChildOf(parent) | InsertAs::LastChildOf(parent) => parent.clone(),
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) => {
+            let parent = anchor
+                .parent_link()
+                .ok_or(HierarchyError::SiblingsWithoutParent)?;
+            if this.ptr_eq(anchor) {
+                return Ok(MoveEffect::None);
+            }
+            parent
+        }
+    };
+
+    let mut current = Some(new_parent);
+    while let Some(ancestor_or_self) = current {
+        if this.ptr_eq(&ancestor_or_self) {
+            return Err(HierarchyError::AncestorDescendantLoop);
+        }
+        current = ancestor_or_self.parent_link();
+    }
+
+    Ok(MoveEffect::Relocate)
+}
+
 /// Detaches the node and its descendant from the current parent, and inserts to other place in the
 /// same tree.
 #[inline]
@@ -346,9 +393,7 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
+    if ensure_movable(this, dest)? == MoveEffect::None {
         return Ok(());
     }
 
@@ -371,6 +416,10 @@ pub(super) fn detach_and_move_to_another_tree<T>(
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    if ensure_movable(this, dest)? == MoveEffect::None {
+        return Ok(());
+    }
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
@@ -539,7 +588,8 @@ pub(super) fn create_as_interrupting_parent<T>(this: &NodeCoreLink<T>, data: T)
                     .expect("[validity] newly created node won't make no loop");
             }
             // Move `this` and its subtree under the new node.
-            detach_and_move_inside_same_tree(this, InsertAs::LastChildOf(new_link))
+            OrphanRoot::new_by_unlink(this)
+                .insert_as_last_child_of(new_link)
                 .expect("[validity] the new node is neither ancestor nor descendant of `this`");
         } else {
             let new_downgraded = new.link.downgrade();
-- 
2.43.0


From 0edfe1256061ea215af57c34c3fb409f5b63dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 04/17] fix: keep the nodes when the root of a tree is moved
 into another tree

The core of the source tree kept the moved root and dismantled it (and then
the destination tree) when the source tree was dropped. A `Tree` that is
still alive cannot be emptied, so the move fails in that case.
---
 src/node/edit.rs  | 27 +++++++++++++++++++++++++++
 src/node/hot.rs   |  3 ++-
 src/node/plain.rs | 10 ++++++++--
 src/tree.rs       |  4 ++++
 4 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 48ee9ce..10cc0cf 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -411,6 +411,15 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
 ///
 /// * `dest_tree_core` must be the tree core for the anchor nod of the destination.
 /// * The anchor node of the destination must be granted to be edited.
+///
+/// # Failures
+///
+/// Fails if:
+///
+/// * the destination is a sibling of the root node, or
+///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+/// * the node is the root and its tree is still referred to by any [`Tree`][`crate::Tree`].
+///     + In this case, [`HierarchyError::EmptyTree`] error is returned.
 pub(super) fn detach_and_move_to_another_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
@@ -420,6 +429,24 @@ pub(super) fn detach_and_move_to_another_tree<T>(
         return Ok(());
     }
 
+    // Keep the source tree core alive until the subtree is inserted to the
+    // destination, since the subtree may have the last references to it.
+    let src_tree_core = this.tree_core();
+    if this.is_root() {
+        // All nodes in the source tree will be moved, so the source tree should
+        // be referred to only by its nodes (and by `src_tree_core`).
+        let num_refs_from_nodes = this
+            .depth_first_traverse()
+            .filter(|ev| match ev {
+                DftEvent::Open(link) => link.membership_ref().tree_core_strong_ref().is_some(),
+                DftEvent::Close(_) => false,
+            })
+            .count();
+        if Rc::strong_count(&src_tree_core) > num_refs_from_nodes + 1 {
+            return Err(HierarchyError::EmptyTree);
+        }
+    }
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
diff --git a/src/node/hot.rs b/src/node/hot.rs
index d7e9a8d..66b2c2d 100644
--- a/src/node/hot.rs
+++ b/src/node/hot.rs
@@ -1159,7 +1159,8 @@ impl<T> HotNode<T> {
     /// Panics if:
     ///
     /// * the hierarchy edit grant is not valid for the given node, or
-    /// * the node (being moved) is an ancestor of the destination.
+    /// * the move fails for any of the reasons listed in
+    ///   [`Node::try_detach_insert_subtree`].
     #[inline]
     pub fn detach_insert_subtree(&self, dest: InsertAs<&HotNode<T>>) {
         self.try_detach_insert_subtree(dest).expect(
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..57219b6 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2529,7 +2529,12 @@ impl<T> Node<T> {
     ///
     /// # Failures
     ///
-    /// Fails if the node (being moved) is an ancestor of the destination.
+    /// Fails if:
+    ///
+    /// * the node (being moved) is an ancestor of the destination,
+    /// * the destination is a sibling of a root node, or
+    /// * the destination is in a different tree and the node is the root of a
+    ///   tree that is still referred to by some [`Tree`] (since a tree cannot be empty).
     ///
     /// # Panics
     ///
@@ -2628,7 +2633,8 @@ impl<T> Node<T> {
     /// Panics if:
     ///
     /// * the hierarchy edit grant is not valid for the given node, or
-    /// * the node (being moved) is an ancestor of the destination.
+    /// * the move fails for any of the reasons listed in
+    ///   [`Node::try_detach_insert_subtree`].
     #[inline]
     pub fn detach_insert_subtree(
         &self,
diff --git a/src/tree.rs b/src/tree.rs
index d25d1eb..5661d89 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -88,6 +88,10 @@ impl<T> Drop for TreeCore<T> {
             .try_borrow()
             .expect("[validity] `TreeCore` is being accessed exclusively")
             .clone();
+        if !root_link.is_root() {
+            // All the nodes have been moved to another tree.
+            return;
+        }
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-- 
2.43.0


From 3756cc285fc7e4dade0c3317907bb86022e738ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 05/17] fix: let `NodeWeak::upgrade` return `None` while the
 tree is being dropped

It panicked when called from the destructor of the data associated to a node.
---
 src/node/membership.rs | 20 ++++++++++++++++----
 src/node/plain.rs      |  5 +++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..d2360e2 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -230,9 +231,16 @@ impl<'a, T> MembershipRef<'a, T> {
                             "[consistency] locks can be acquired only from strong node references"
                         );
                         let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
-                            tree_core: weak_core,
-                        };
+                        let old_core = mem::replace(
+                            &mut *core,
+                            MembershipCore::Weak {
+                                tree_core: weak_core,
+                            },
+                        );
+                        // This may drop the tree and then run the destructors of
+                        // the user data, so unborrow the membership before that.
+                        drop(core);
+                        drop(old_core);
                     }
                 }
             }
@@ -260,7 +268,11 @@ impl<'a, T> MembershipRef<'a, T> {
                 if lock_aggregator.has_lock() {
                     tree_core.transfer_single_lock_to(new_tree_core)?;
                 }
-                *tree_core = new_tree_core.clone();
+                let old_tree_core = mem::replace(tree_core, new_tree_core.clone());
+                // This may drop the tree and then run the destructors of the
+                // user data, so unborrow the membership before that.
+                drop(core);
+                drop(old_tree_core);
             }
         }
         Ok(())
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 57219b6..ca9c5d9 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2947,7 +2947,8 @@ impl<T> NodeWeak<T> {
     /// ```
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
-        let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The tree core is not available while the tree is being dropped.
+        let link = NodeLink::new(self.link.upgrade()?)?;
+        Some(Node::with_node_link(link))
     }
 }
-- 
2.43.0


From 73d861614d2d6d8b83bd6f1d57fd4f00ae75a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 06/17] fix: stop `StableSiblingsTraverser` when both ends meet

It did not stop at the given last node, and nodes were returned twice when
the iterator was consumed from both ends.
---
 src/traverse/siblings.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..2779477 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,9 +168,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next
-            .next_sibling()
-            .map(|next_of_next| (next_of_next, next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next
+                .next_sibling()
+                .map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -186,9 +188,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev_sibling()
-            .map(|next_of_next_back| (next, next_of_next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next_back
+                .prev_sibling()
+                .map(|next_of_next_back| (next, next_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From c253f0470957008522623823dcca500412207ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 07/17] fix: exclude the node itself from
 `preceding_siblings_stable`

It excluded the first sibling and included the node itself.
---
 src/node/frozen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..740666d 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,7 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        iter.next_back();
         iter
     }
 
-- 
2.43.0


From 67de17eb680e9c33a0f58ab68466c28f132b24ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 08/17] fix: stop `StableDepthFirstTraverser` when both ends
 meet

It left the subtree when the toplevel node was not the root, and events were
returned twice when the iterator was consumed from both ends.
---
 src/traverse/depth_first.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..857e894 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -370,6 +370,18 @@ impl<T> StableDepthFirstTraverser<T> {
         self.next.as_ref().map(|(_next, next_back)| next_back)
     }
 
+    /// Returns true if the next event is the last event to emit.
+    #[must_use]
+    fn is_next_last(&self) -> bool {
+        match self.next.as_ref() {
+            Some((DftEvent::Open(next), DftEvent::Open(next_back)))
+            | Some((DftEvent::Close(next), DftEvent::Close(next_back))) => {
+                FrozenNode::ptr_eq(next, next_back)
+            }
+            _ => false,
+        }
+    }
+
     /// Skips until the close of the current node, and returns the closed node.
     ///
     /// Returns `None` if there are no nodes to close (i.e. the iteration has
@@ -390,20 +402,17 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
     type Item = DftEvent<FrozenNode<T>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        let is_last = self.is_next_last();
         let (next, next_back) = self.next.take()?;
-        self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        if !is_last {
+            self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
         match self.next.as_ref() {
-            Some((DftEvent::Open(next), DftEvent::Open(next_back)))
-            | Some((DftEvent::Close(next), DftEvent::Close(next_back)))
-                if FrozenNode::ptr_eq(next, next_back) =>
-            {
-                // The next event is the last event.
-                (1, Some(1))
-            }
+            Some(_) if self.is_next_last() => (1, Some(1)),
             Some((_, _)) => (2, None),
             None => (0, Some(0)),
         }
@@ -412,10 +421,13 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let is_last = self.is_next_last();
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev()
-            .map(|prev_of_next_back| (next, prev_of_next_back));
+        if !is_last {
+            self.next = next_back
+                .prev()
+                .map(|prev_of_next_back| (next, prev_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From a097fbd1edae164c8b0b4a84cdacc70b4dd5ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 09/17] fix: don't ignore descendants in size hint of
 `StableShallowDepthFirstTraverser`

---
 src/traverse/depth_first.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 857e894..51478f6 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -662,7 +662,13 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
                     // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => {
+                        if *depth == self.max_depth() || !next.has_children() {
+                            return (2, Some(2));
+                        }
+                        // `Open` for `depth`, `Open` and `Close` for the child, and `Close` for `depth`.
+                        4
+                    }
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From 46aed771b1dab61a5fe68e818d08eb496cecdea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 10/17] fix: advance the event in `DftEvent::close_current`

It checked the same event forever unless the very next event is the close.
---
 src/traverse/depth_first.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 51478f6..2a39f20 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,19 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut next = self.next()?;
                 loop {
-                    match self.next()? {
-                        Self::Open(_) => depth += 1,
+                    next = match next {
+                        Self::Open(_) => {
+                            depth += 1;
+                            next.next()?
+                        }
                         Self::Close(node) if depth == 0 => return Some(node),
-                        Self::Close(_) => depth -= 1,
-                    }
+                        Self::Close(_) => {
+                            depth -= 1;
+                            next.next()?
+                        }
+                    };
                 }
             }
 
-- 
2.43.0


From 1d8904256492e2b2cfe724b9352b13006c2ad391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 11/17] fix: don't let `TreeBuilder` leave the subtree after
 its root is closed

When the builder is created from a non-root node, closing that node made its
parent the current node. Also, excessive `close` no longer closes any nodes.
---
 src/serial.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..d6f9ce6 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -564,21 +564,25 @@ impl<T> TreeBuilder<T> {
             // Close zero nodes, i.e. do nothing.
             return Ok(());
         }
-        if let Some(current) = &mut self.current {
-            let parent_level = level - 1;
-            for _ in 0..parent_level {
-                let root = self
-                    .root
-                    .as_ref()
-                    .expect("[validity] `root` should be set when some node is tracked");
-                if current.ptr_eq_plain(root) {
+        if let Some(current) = &self.current {
+            let root = self
+                .root
+                .as_ref()
+                .expect("[validity] `root` should be set when some node is tracked");
+            let mut last_closed = current.clone();
+            for _ in 1..level {
+                if last_closed.ptr_eq_plain(root) {
                     // This is the root of the subtree, even if it has a parent.
                     return Err(TreeBuildError::RootClosed);
                 }
-                *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
+                last_closed = last_closed.parent().ok_or(TreeBuildError::RootClosed)?;
             }
-            // Now `current` is a parent node of the result node.
-            self.current = current.parent();
+            self.current = if last_closed.ptr_eq_plain(root) {
+                // This is the root of the subtree, even if it has a parent.
+                None
+            } else {
+                last_closed.parent()
+            };
             Ok(())
         } else if self.root.is_some() {
             Err(TreeBuildError::RootClosed)
-- 
2.43.0


From a531ecebc840bb51454791e181fdfc0a494c409a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 12/17] fix: don't overflow the depth in
 `NonAllocatingBreadthFirstTraverser`

---
 src/traverse/breadth_first.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..4e90c43 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,14 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(depth) => depth,
+            None => {
+                // No nodes can be deeper than this.
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0


From 04e8ee87a12a06757ec4b9c632cb3d42321c8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 13/17] fix: clone the entire subtree before inserting the
 clone

When the destination was inside the source subtree, the clones were cloned
endlessly. Also, a partial clone was left in the destination tree when some
data in the source subtree was mutably borrowed.
---
 src/anchor.rs    | 22 ----------------------
 src/node/edit.rs | 42 +++++++++++++-----------------------------
 2 files changed, 13 insertions(+), 51 deletions(-)

diff --git a/src/anchor.rs b/src/anchor.rs
index 38e3fed..048af58 100644
--- a/src/anchor.rs
+++ b/src/anchor.rs
@@ -1,7 +1,5 @@
 //! Anchor types.
 
-use crate::node::{HierarchyError, HotNode};
-
 /// Relation of the node being adopted.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub enum AdoptAs {
@@ -67,18 +65,6 @@ impl<T> InsertAs<T> {
         }
     }
 
-    /// Returns the corresponding `AdoptAs` value.
-    #[inline]
-    #[must_use]
-    pub(super) fn to_adopt_as(&self) -> AdoptAs {
-        match self {
-            Self::FirstChildOf(_) => AdoptAs::FirstChild,
-            Self::LastChildOf(_) => AdoptAs::LastChild,
-            Self::PreviousSiblingOf(_) => AdoptAs::PreviousSibling,
-            Self::NextSiblingOf(_) => AdoptAs::NextSibling,
-        }
-    }
-
     /// Converts from `&InsertAs<T>` to `InsertAs<T>`.
     ///
     /// # Examples
@@ -102,11 +88,3 @@ impl<T> InsertAs<T> {
         }
     }
 }
-
-impl<T> InsertAs<&HotNode<T>> {
-    /// Creates a new node and inserts to the destination.
-    #[inline]
-    pub(super) fn try_create_node(&self, data: T) -> Result<HotNode<T>, HierarchyError> {
-        self.anchor().try_create_node_as(data, self.to_adopt_as())
-    }
-}
diff --git a/src/node/edit.rs b/src/node/edit.rs
index 10cc0cf..0471f86 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -6,7 +6,6 @@ use alloc::rc::Rc;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -846,35 +845,20 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
+    // Clone the entire subtree before inserting it, in order not to modify the
+    // destination on failure, and not to clone the clones when the destination
+    // is inside the source subtree.
+    let cloned = source
+        .try_clone_subtree()
+        .map_err(HierarchyError::BorrowNodeData)?;
+    detach_and_move_to_another_tree(
+        cloned.node_core(),
+        dest.map(HotNode::node_core),
+        &dest.anchor().plain_ref().node_core().tree_core(),
     )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
-    events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
-        .and_then(|builder| builder.finish())
-        .map(|node| {
-            node.bundle_new_hierarchy_edit_grant()
-                .expect("[consistency] the hierarchy of the destination tree is already editable")
-        })
-        .map_err(|e| match e {
-            TreeBuildError::BorrowData(e) => HierarchyError::BorrowNodeData(e),
-            TreeBuildError::RootNotOpened | TreeBuildError::RootClosed => {
-                unreachable!("[validity] subtree should be consistently serializable")
-            }
-        })
+    Ok(cloned
+        .bundle_new_hierarchy_edit_grant()
+        .expect("[consistency] the hierarchy of the destination tree is already editable"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6702d5e1720569b6f7132eddbd417ad28d3560c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 14/17] fix: keep the source tree alive until the detached
 nodes belong to the new tree

When the detached node had the last reference to the tree, the source tree was
dropped in the middle of the membership updates, and the destructors of the
user data were able to observe (and panic on) half-moved nodes.
---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 0471f86..ecf2687 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -334,6 +334,11 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
         return;
     }
 
+    // `this` may have the last reference to the tree. Keep the tree alive until
+    // all nodes in the subtree belong to the new tree, since dropping the tree
+    // runs the destructors of the user data.
+    let _old_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this.create_new_tree();
 }
-- 
2.43.0


From b3abccd72fc37ace7b34419701ccd6be445f657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 15/17] fix: print a line for every node even if its content is
 empty

Nodes whose data is formatted as an empty string disappeared from the output
of `debug_pretty_print`, and their descendants looked to be under other nodes.
---
 src/node/debug_print/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/debug_print/pretty.rs b/src/node/debug_print/pretty.rs
index b4ad2da..f5ece00 100644
--- a/src/node/debug_print/pretty.rs
+++ b/src/node/debug_print/pretty.rs
@@ -88,7 +88,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root item has no indents to write.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
             pending_ws_only_indent_level: 0,
         }
@@ -112,6 +113,10 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_last_item,
             is_first_line: true,
         });
+        // Write the indent here, since the item should have its own line even
+        // if the content is empty.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
 
         Ok(())
     }
-- 
2.43.0


From 60e27a136b9dca9c8937f7ec8f7971af8d3b868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 16/17] fix: clone a snapshot of the hierarchy, since cloning
 the data can edit it

---
 src/node/plain.rs | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/node/plain.rs b/src/node/plain.rs
index ca9c5d9..ab8ff9c 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -4,6 +4,7 @@ use core::cell::{BorrowError, BorrowMutError, Ref, RefMut};
 use core::fmt;
 
 use alloc::rc::{Rc, Weak};
+use alloc::vec::Vec;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::debug_print::{DebugPrettyPrint, DebugPrintNodeLocal, DebugPrintSubtree};
@@ -2361,24 +2362,14 @@ impl<T> Node<T> {
     where
         T: Clone,
     {
-        // NOTE: Can be made simpler by nightly Rust.
-        // `Iterator::try_collect()` is not yet stabilized as of Rust 1.60.0.
-        // See <https://github.com/rust-lang/rust/issues/94047>.
-        //self.to_events()
-        //    .try_collect::<Result<Self, TreeBuildError>>()?
-        //    .map_err(|e| match e {
-        //        TreeBuildError::BorrowData(e) => e,
-        //        TreeBuildError::RootNotOpened | TreeBuildError::RootClosed => {
-        //            unreachable!("[validity] subtree should be consistently serializable")
-        //        }
-        //    })
-
-        self.to_events()
-            .try_fold(serial::TreeBuilder::new(), |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            })
-            .and_then(|builder| builder.finish())
+        // Take a snapshot of the hierarchy before cloning the data, since
+        // `T::clone()` is user code and it may edit the hierarchy.
+        let events: Vec<_> = self.depth_first_traverse().collect();
+
+        let mut builder = serial::TreeBuilder::new();
+        builder
+            .push_dft_events(events)
+            .and_then(|()| builder.finish())
             .map_err(|e| match e {
                 TreeBuildError::BorrowData(e) => e,
                 TreeBuildError::RootNotOpened | TreeBuildError::RootClosed => {
-- 
2.43.0


From 72cecb34b445dc26cef438fc1124da0d9ce578d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 17/17] fix: drop the remaining nodes without recursion after a
 destructor panicked

---
 src/tree.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 5661d89..72392fc 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -92,12 +92,30 @@ impl<T> Drop for TreeCore<T> {
             // All the nodes have been moved to another tree.
             return;
         }
+        let mut rest = NodesToDrop {
+            next: Some(DftEvent::Open(root_link)),
+        };
+        rest.drop_nodes();
+    }
+}
+
+/// Nodes of a tree being dropped.
+///
+/// If the destructor of the user data panics, drop of this value continues to
+/// drop the remaining nodes without recursion.
+struct NodesToDrop<T> {
+    /// Next event of the depth-first traversal.
+    next: Option<DftEvent<NodeCoreLink<T>>>,
+}
+
+impl<T> NodesToDrop<T> {
+    /// Drops the nodes from the leaves.
+    fn drop_nodes(&mut self) {
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-        let mut next = Some(DftEvent::Open(root_link));
-        while let Some(current) = next.take() {
-            next = current.next();
+        while let Some(current) = self.next.take() {
+            self.next = current.next();
             let close_link = match current {
                 DftEvent::Open(_) => continue,
                 DftEvent::Close(v) => v,
@@ -119,6 +137,13 @@ impl<T> Drop for TreeCore<T> {
     }
 }
 
+impl<T> Drop for NodesToDrop<T> {
+    #[inline]
+    fn drop(&mut self) {
+        self.drop_nodes();
+    }
+}
+
 /// Debug printing.
 impl<T> TreeCore<T> {
     /// Returns a debug-printable proxy that does not dump nodes.
-- 
2.43.0

