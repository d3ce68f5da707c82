From ceec552afbfa8ae4722673d782a0f73e549590d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 01/16] fix: keep track of the last sibling when the last
 sibling is unlinked

`OrphanRoot::new_by_unlink` left `prev_sibling_cyclic` of the first sibling
referring to the removed node.
---
 src/node/edit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..c007fb9 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -95,6 +95,10 @@ impl<'a, T> OrphanRoot<'a, T> {
         }
         if let Some(next_sibling) = next_sibling {
             next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
+        } else if let Some(first_sibling) = parent.as_ref().and_then(|p| p.first_child_link()) {
+            // The last sibling is being removed, so the previous sibling is
+            // the new last sibling.
+            first_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
         }
 
         // Update `node_to_unlink`.
-- 
2.43.0


From 8a99ebf1f2ca5a844abc6702bd31fb3f528b7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 02/16] fix: keep track of the last sibling when a childless
 last sibling is replaced with its children

`try_replace_with_children` left `prev_sibling_cyclic` of the first sibling
referring to the removed node.
---
 src/node/edit.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index c007fb9..9233ba0 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -679,6 +679,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    // `prev_sibling_link` is the new last sibling.
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From 0f0e551bddc58ac596f7acdb4442444da18933b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 03/16] fix: validate the destination before unlinking the node
 to move

A move to an invalid place (under the node itself, or next to a root) was
accepted or left the node orphaned. Check the destination first, so that
failed moves have no effects. Moving a root node within its tree is also
reported as the loop it would make.
---
 src/anchor.rs    |  7 +++++++
 src/node/edit.rs | 38 ++++++++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/anchor.rs b/src/anchor.rs
index 38e3fed..b8df79c 100644
--- a/src/anchor.rs
+++ b/src/anchor.rs
@@ -67,6 +67,13 @@ impl<T> InsertAs<T> {
         }
     }
 
+    /// Returns true if the anchor will be a sibling of the node being inserted.
+    #[inline]
+    #[must_use]
+    pub(super) fn is_sibling_anchor(&self) -> bool {
+        matches!(self, Self::PreviousSiblingOf(_) | Self::NextSiblingOf(_))
+    }
+
     /// Returns the corresponding `AdoptAs` value.
     #[inline]
     #[must_use]
diff --git a/src/node/edit.rs b/src/node/edit.rs
index 9233ba0..81902ac 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -109,7 +109,7 @@ impl<'a, T> OrphanRoot<'a, T> {
 
         Self {
             link: node_to_unlink,
-            is_newly_created: true,
+            is_newly_created: false,
         }
     }
 
@@ -344,9 +344,9 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
+    ensure_movable_to(this, &dest)?;
+    if dest.is_sibling_anchor() && dest.anchor().ptr_eq(this) {
+        // The node is already adjacent to itself.
         return Ok(());
     }
 
@@ -354,6 +354,34 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
     orphan_this.insert(dest)
 }
 
+/// Checks if the node and its descendants can be moved to the given destination.
+///
+/// This should be called before the node is unlinked, so that the hierarchy
+/// is left unchanged on failure.
+fn ensure_movable_to<T>(
+    this: &NodeCoreLink<T>,
+    dest: &InsertAs<&NodeCoreLink<T>>,
+) -> Result<(), HierarchyError> {
+    let anchor = *dest.anchor();
+    if dest.is_sibling_anchor() && anchor.is_root() {
+        return Err(HierarchyError::SiblingsWithoutParent);
+    }
+    // The node cannot have itself as an ancestor, but can be adjacent to itself.
+    let mut current = if dest.is_sibling_anchor() {
+        anchor.parent_link()
+    } else {
+        Some(anchor.clone())
+    };
+    while let Some(ancestor) = current {
+        if ancestor.ptr_eq(this) {
+            return Err(HierarchyError::AncestorDescendantLoop);
+        }
+        current = ancestor.parent_link();
+    }
+
+    Ok(())
+}
+
 /// Detaches the node and its descendant from the current tree, and inserts to other tree.
 ///
 /// This is O(1) operation if the destination is inside the same tree, or
@@ -369,6 +397,8 @@ pub(super) fn detach_and_move_to_another_tree<T>(
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    ensure_movable_to(this, &dest)?;
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From 9d870b742a2633273a3b33ace2a724e9ee4e7a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 04/16] fix: refuse to move the root of a tree into another
 tree

The source tree core kept referring to the moved root, so dropping it tore
apart the destination tree, and `Tree`s referring to the source tree exposed
nodes of another tree. Report `EmptyTree`, as replacement of a childless root
with its children does.
---
 src/node/edit.rs  |  5 +++++
 src/node/plain.rs | 11 ++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 81902ac..92c1bc6 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -398,6 +398,11 @@ pub(super) fn detach_and_move_to_another_tree<T>(
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
     ensure_movable_to(this, &dest)?;
+    if this.is_root() {
+        // The source tree would lose all of its nodes, but there may be
+        // references to the tree.
+        return Err(HierarchyError::EmptyTree);
+    }
 
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..2021274 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2529,7 +2529,16 @@ impl<T> Node<T> {
     ///
     /// # Failures
     ///
-    /// Fails if the node (being moved) is an ancestor of the destination.
+    /// Fails if:
+    ///
+    /// * the node (being moved) is the destination or its ancestor,
+    ///     + In this case, [`HierarchyError::AncestorDescendantLoop`] error is returned.
+    /// * the node would be a sibling of the root, or
+    ///     + In this case, [`HierarchyError::SiblingsWithoutParent`] error is returned.
+    /// * the node is the root of a tree, and the destination is in another tree.
+    ///     + In this case, [`HierarchyError::EmptyTree`] error is returned.
+    ///
+    /// The hierarchies are not modified on failure.
     ///
     /// # Panics
     ///
-- 
2.43.0


From 4f95b2757da4e962db1b1c70743e437b18056e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 05/16] fix: read the source subtree before inserting its clone

Inserting a clone of a subtree into the subtree itself did not terminate, and
a failure to borrow node data left a partial clone at the destination.
---
 src/node/edit.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 92c1bc6..289f661 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -3,10 +3,11 @@
 use core::cmp::Ordering;
 
 use alloc::rc::Rc;
+use alloc::vec::Vec;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
+use crate::serial::{Event, TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -802,24 +803,24 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
-    )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
+    // Read the entire subtree before creating nodes, since the destination can
+    // be in the source subtree, and should not be modified if the data of some
+    // node cannot be borrowed.
+    let events = source
+        .to_events()
+        .collect::<Result<Vec<_>, _>>()
+        .map_err(HierarchyError::BorrowNodeData)?;
+    let mut events = events.into_iter();
+    // The opening of the root is processed here and by `TreeBuilder::with_root()`.
+    let subtree_root = match events.next() {
+        Some(Event::Open(data)) => dest.try_create_node(data)?,
+        _ => unreachable!("[validity] serialized tree should start with the opening of the root"),
+    };
     events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
+        .try_fold(TreeBuilder::with_root(subtree_root), |mut builder, ev| {
+            builder.push_event(ev)?;
+            Ok(builder)
+        })
         .and_then(|builder| builder.finish())
         .map(|node| {
             node.bundle_new_hierarchy_edit_grant()
-- 
2.43.0


From 5d809ca66d8cc94ac91f9121dc00eefee1fce695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 06/16] fix: stop the stable siblings traversal when both ends
 meet

---
 src/node/frozen.rs       |  2 +-
 src/traverse/siblings.rs | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..740666d 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,7 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        iter.next_back();
         iter
     }
 
diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..1720474 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,9 +168,12 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next
-            .next_sibling()
-            .map(|next_of_next| (next_of_next, next_back));
+        // The iteration ends when the both ends meet.
+        if !next.ptr_eq(&next_back) {
+            self.next = next
+                .next_sibling()
+                .map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -186,9 +189,12 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev_sibling()
-            .map(|next_of_next_back| (next, next_of_next_back));
+        // The iteration ends when the both ends meet.
+        if !next.ptr_eq(&next_back) {
+            self.next = next_back
+                .prev_sibling()
+                .map(|next_of_next_back| (next, next_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From e9681186c2ac2a552f8bdb13c35e6621cb100f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 07/16] fix: advance the event in DftEvent::close_current

---
 src/traverse/depth_first.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..c18414f 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,15 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut event = self.next()?;
                 loop {
-                    match self.next()? {
+                    let next = event.next();
+                    match event {
                         Self::Open(_) => depth += 1,
                         Self::Close(node) if depth == 0 => return Some(node),
                         Self::Close(_) => depth -= 1,
                     }
+                    event = next?;
                 }
             }
 
-- 
2.43.0


From 07c35245ceb19200446eb8674af81a608d944fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 08/16] fix: stop the stable depth-first traversal when both
 ends meet

---
 src/traverse/depth_first.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index c18414f..3842643 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -373,6 +373,17 @@ impl<T> StableDepthFirstTraverser<T> {
         self.next.as_ref().map(|(_next, next_back)| next_back)
     }
 
+    /// Returns true if the given events are identical.
+    #[must_use]
+    fn is_same_event(a: &DftEvent<FrozenNode<T>>, b: &DftEvent<FrozenNode<T>>) -> bool {
+        match (a, b) {
+            (DftEvent::Open(a), DftEvent::Open(b)) | (DftEvent::Close(a), DftEvent::Close(b)) => {
+                a.ptr_eq(b)
+            }
+            _ => false,
+        }
+    }
+
     /// Skips until the close of the current node, and returns the closed node.
     ///
     /// Returns `None` if there are no nodes to close (i.e. the iteration has
@@ -394,7 +405,10 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        // The iteration ends when the both ends meet.
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -416,9 +430,12 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev()
-            .map(|prev_of_next_back| (next, prev_of_next_back));
+        // The iteration ends when the both ends meet.
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next_back
+                .prev()
+                .map(|prev_of_next_back| (next, prev_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From 29507a754c1df9f55bf4d02027f6281b18a7b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 09/16] fix: do not ignore descendants in the size hint of the
 shallow depth-first traversal

---
 src/traverse/depth_first.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 3842643..1618312 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -669,8 +669,15 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                 let min = match depth.cmp(depth_back) {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
-                    // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    // `Open` and `Close` for `depth`, and possibly descendants between them.
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => {
+                        let max = if *depth == self.max_depth() {
+                            Some(2)
+                        } else {
+                            None
+                        };
+                        return (2, max);
+                    }
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From 9bc3f9a703a2e75a9492bd558e59f83d7c22d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 10/16] fix: do not overflow the depth of the non-allocating
 breadth-first traversal

---
 src/traverse/breadth_first.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..4d30eb1 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,13 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(v) => v,
+            None => {
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0


From 33bee246aaca71cf6291b7d75d9c4936e4d61b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 11/16] fix: close the root of TreeBuilder even if the root has
 a parent

---
 src/serial.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..be33719 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -577,8 +577,17 @@ impl<T> TreeBuilder<T> {
                 }
                 *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
             }
-            // Now `current` is a parent node of the result node.
-            self.current = current.parent();
+            // Now `current` is the node to close last.
+            let is_root = self
+                .root
+                .as_ref()
+                .map_or(false, |root| current.ptr_eq_plain(root));
+            self.current = if is_root {
+                // This is the root of the subtree, even if it has a parent.
+                None
+            } else {
+                current.parent()
+            };
             Ok(())
         } else if self.root.is_some() {
             Err(TreeBuildError::RootClosed)
-- 
2.43.0


From 9f3987748e4f96df3e2342d7fc8f44b299f9ade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 12/16] fix: return None from NodeWeak::upgrade while the tree
 is being dropped

---
 src/node/plain.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/plain.rs b/src/node/plain.rs
index 2021274..2e24526 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2950,7 +2950,9 @@ impl<T> NodeWeak<T> {
     /// ```
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
-        let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The tree can be already dead even if the node is still alive: the
+        // nodes are dropped one by one when the tree is being dropped.
+        let link = NodeLink::new(self.link.upgrade()?)?;
+        Some(Node::with_node_link(link))
     }
 }
-- 
2.43.0


From 4201a83d66c2a6fa7446622031d383c1231b80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 13/16] fix: drop the tree after releasing the borrow of the
 membership

---
 src/node/membership.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..3f69208 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -229,10 +230,14 @@ impl<'a, T> MembershipRef<'a, T> {
                             !lock_aggregator.has_lock(),
                             "[consistency] locks can be acquired only from strong node references"
                         );
-                        let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
-                            tree_core: weak_core,
+                        let weak = MembershipCore::Weak {
+                            tree_core: Rc::downgrade(tree_core),
                         };
+                        let strong = mem::replace(&mut *core, weak);
+                        // Dropping the tree core can drop the data of nodes,
+                        // and it can access the membership.
+                        drop(core);
+                        drop(strong);
                     }
                 }
             }
-- 
2.43.0


From 9b4e5759c9c7e7ae5bbe759f7d5b2354fcaa2a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 14/16] fix: keep the source tree alive until the detached
 nodes become consistent

---
 src/node/edit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 289f661..d8d6397 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -334,6 +334,9 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
         return;
     }
 
+    // Keep the tree alive until the hierarchy and memberships are consistent,
+    // since dropping the tree can drop the data of nodes.
+    let _tree_core = this.tree_core();
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this.create_new_tree();
 }
@@ -405,6 +408,9 @@ pub(super) fn detach_and_move_to_another_tree<T>(
         return Err(HierarchyError::EmptyTree);
     }
 
+    // Keep the tree alive until the hierarchy and memberships are consistent,
+    // since dropping the tree can drop the data of nodes.
+    let _src_tree_core = this.tree_core();
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From 050c503b5a57fba65152156089d773c49ae22d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:10 +0000
Subject: [PATCH 15/16] fix: pretty-print nodes whose data prints nothing

---
 src/node/debug_print/pretty.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/debug_print/pretty.rs b/src/node/debug_print/pretty.rs
index b4ad2da..340bf1a 100644
--- a/src/node/debug_print/pretty.rs
+++ b/src/node/debug_print/pretty.rs
@@ -88,7 +88,8 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
     fn new(fmt: &'b mut fmt::Formatter<'a>) -> Self {
         Self {
             fmt,
-            line_state: LineState::BeforeIndent,
+            // The root item has no indent.
+            line_state: LineState::PartialIndent,
             indents: Vec::new(),
             pending_ws_only_indent_level: 0,
         }
@@ -113,6 +114,10 @@ impl<'a, 'b> IndentWriter<'a, 'b> {
             is_first_line: true,
         });
 
+        // Write the indent now, since the content of the item can be empty.
+        self.write_indent_partial()?;
+        self.line_state = LineState::PartialIndent;
+
         Ok(())
     }
 
-- 
2.43.0


From e675c8e2a55c7af87e00bf747f56fe53a6e95c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:33 +0000
Subject: [PATCH 16/16] fix: take the hierarchy before cloning the data of a
 subtree

---
 src/node/edit.rs  |  8 ++++++--
 src/node/plain.rs | 23 ++++++++---------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index d8d6397..1027011 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -812,8 +812,12 @@ where
     // Read the entire subtree before creating nodes, since the destination can
     // be in the source subtree, and should not be modified if the data of some
     // node cannot be borrowed.
-    let events = source
-        .to_events()
+    // Additionally, take the hierarchy before cloning the data, since
+    // `T::clone()` can edit the tree.
+    let dft_events = source.depth_first_traverse().collect::<Vec<_>>();
+    let events = dft_events
+        .into_iter()
+        .map(Event::try_from)
         .collect::<Result<Vec<_>, _>>()
         .map_err(HierarchyError::BorrowNodeData)?;
     let mut events = events.into_iter();
diff --git a/src/node/plain.rs b/src/node/plain.rs
index 2e24526..6429e52 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -4,6 +4,7 @@ use core::cell::{BorrowError, BorrowMutError, Ref, RefMut};
 use core::fmt;
 
 use alloc::rc::{Rc, Weak};
+use alloc::vec::Vec;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::debug_print::{DebugPrettyPrint, DebugPrintNodeLocal, DebugPrintSubtree};
@@ -2361,21 +2362,13 @@ impl<T> Node<T> {
     where
         T: Clone,
     {
-        // NOTE: Can be made simpler by nightly Rust.
-        // `Iterator::try_collect()` is not yet stabilized as of Rust 1.60.0.
-        // See <https://github.com/rust-lang/rust/issues/94047>.
-        //self.to_events()
-        //    .try_collect::<Result<Self, TreeBuildError>>()?
-        //    .map_err(|e| match e {
-        //        TreeBuildError::BorrowData(e) => e,
-        //        TreeBuildError::RootNotOpened | TreeBuildError::RootClosed => {
-        //            unreachable!("[validity] subtree should be consistently serializable")
-        //        }
-        //    })
-
-        self.to_events()
-            .try_fold(serial::TreeBuilder::new(), |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
+        // Take the hierarchy before cloning the data, since `T::clone()` can
+        // edit the tree.
+        let events = self.depth_first_traverse().collect::<Vec<_>>();
+        events
+            .into_iter()
+            .try_fold(serial::TreeBuilder::new(), |mut builder, ev| {
+                builder.push_dft_event(ev)?;
                 Ok(builder)
             })
             .and_then(|builder| builder.finish())
-- 
2.43.0

