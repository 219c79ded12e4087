From f10bc19eaed53e4fc3264a8a6a8e8e63545f5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 01/13] fix: check the destination before moving a subtree

Moving a node under itself or its descendant created a cycle, and a failed
move left the node detached from (or re-homed out of) its tree.
---
 src/node/edit.rs | 43 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 326c29a..152c679 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -105,7 +105,7 @@ impl<'a, T> OrphanRoot<'a, T> {
 
         Self {
             link: node_to_unlink,
-            is_newly_created: true,
+            is_newly_created: false,
         }
     }
 
@@ -333,17 +333,46 @@ pub(super) fn detach_subtree<T>(this: &NodeCoreLink<T>) {
     orphan_this.create_new_tree();
 }
 
+/// Checks whether the subtree can be moved to the given destination.
+///
+/// This should be tested before anything is modified, in order not to leave the
+/// hierarchy half-modified on failure.
+fn ensure_movable_to<T>(
+    this: &NodeCoreLink<T>,
+    dest: &InsertAs<&NodeCoreLink<T>>,
+) -> Result<(), HierarchyError> {
+    let new_parent = match *dest {
+        InsertAs::FirstChildOf(parent) | InsertAs::LastChildOf(parent) => parent.clone(),
+        InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) => anchor
+            .parent_link()
+            .ok_or(HierarchyError::SiblingsWithoutParent)?,
+    };
+    let orphan_this = OrphanRoot {
+        link: this,
+        is_newly_created: false,
+    };
+    if orphan_this.is_ancestor_of(new_parent) {
+        return Err(HierarchyError::AncestorDescendantLoop);
+    }
+    Ok(())
+}
+
 /// Detaches the node and its descendant from the current parent, and inserts to other place in the
 /// same tree.
+///
+/// The hierarchy is left unmodified on failure.
 #[inline]
 pub(super) fn detach_and_move_inside_same_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
 ) -> Result<(), HierarchyError> {
-    if this.is_root() {
-        // Detaching entire tree here is meaningless.
-        // Do nothing.
-        return Ok(());
+    ensure_movable_to(this, &dest)?;
+
+    if let InsertAs::PreviousSiblingOf(anchor) | InsertAs::NextSiblingOf(anchor) = dest {
+        if this.ptr_eq(anchor) {
+            // The node is already at the destination.
+            return Ok(());
+        }
     }
 
     let orphan_this = OrphanRoot::new_by_unlink(this);
@@ -360,11 +389,15 @@ pub(super) fn detach_and_move_inside_same_tree<T>(
 ///
 /// * `dest_tree_core` must be the tree core for the anchor nod of the destination.
 /// * The anchor node of the destination must be granted to be edited.
+///
+/// The hierarchy is left unmodified on failure.
 pub(super) fn detach_and_move_to_another_tree<T>(
     this: &NodeCoreLink<T>,
     dest: InsertAs<&NodeCoreLink<T>>,
     dest_tree_core: &Rc<TreeCore<T>>,
 ) -> Result<(), HierarchyError> {
+    ensure_movable_to(this, &dest)?;
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
-- 
2.43.0


From ecff5baa30e8ce7ed5c7b530e95b53dc67ab2853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 02/13] fix: do not destroy the nodes when an entire tree is
 moved to another tree

The old tree core kept managing the nodes as its own, and dismantled them (and
even the destination tree) when it was dropped.
---
 src/node/edit.rs       |  4 ++++
 src/node/internal.rs   |  7 +++++++
 src/node/membership.rs | 23 +++++++++++++++++++----
 src/tree.rs            |  5 +++++
 4 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index 152c679..c1f2e0e 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -398,6 +398,10 @@ pub(super) fn detach_and_move_to_another_tree<T>(
 ) -> Result<(), HierarchyError> {
     ensure_movable_to(this, &dest)?;
 
+    // Keep the source tree core alive until the node is moved completely, since
+    // the core has no nodes anymore if the entire tree is moved.
+    let _src_tree_core = this.tree_core();
+
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
diff --git a/src/node/internal.rs b/src/node/internal.rs
index 838d31b..b820285 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -88,6 +88,13 @@ impl<T> NodeCoreLink<T> {
         self.membership_ref().ptr_eq_tree_core(tree_core)
     }
 
+    /// Returns true if the node belongs to the tree with the core at the given address.
+    #[inline]
+    #[must_use]
+    pub(crate) fn belongs_to_tree_core_ptr(&self, tree_core: *const TreeCore<T>) -> bool {
+        self.membership_ref().ptr_eq_tree_core_ptr(tree_core)
+    }
+
     /// Returns the depth-first traverser for the subtree.
     #[inline]
     #[must_use]
diff --git a/src/node/membership.rs b/src/node/membership.rs
index ac3acc3..6f6c981 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -2,6 +2,7 @@
 
 use core::cell::{Ref, RefCell};
 use core::fmt;
+use core::mem;
 use core::num::NonZeroUsize;
 
 use alloc::rc::{Rc, Weak};
@@ -230,9 +231,16 @@ impl<'a, T> MembershipRef<'a, T> {
                             "[consistency] locks can be acquired only from strong node references"
                         );
                         let weak_core = Rc::downgrade(tree_core);
-                        *core = MembershipCore::Weak {
-                            tree_core: weak_core,
-                        };
+                        let old = mem::replace(
+                            &mut *core,
+                            MembershipCore::Weak {
+                                tree_core: weak_core,
+                            },
+                        );
+                        // Release the borrow before dropping the reference to
+                        // the tree core, since this may drop the entire tree.
+                        drop(core);
+                        drop(old);
                     }
                 }
             }
@@ -267,8 +275,15 @@ impl<'a, T> MembershipRef<'a, T> {
     }
 
     /// Returns true if the membership refers to the same tree core allocation.
+    #[inline]
     #[must_use]
     pub(super) fn ptr_eq_tree_core(&self, tree_core: &Rc<TreeCore<T>>) -> bool {
+        self.ptr_eq_tree_core_ptr(Rc::as_ptr(tree_core))
+    }
+
+    /// Returns true if the node belongs to the tree with the core at the given address.
+    #[must_use]
+    pub(super) fn ptr_eq_tree_core_ptr(&self, tree_core: *const TreeCore<T>) -> bool {
         let core = self
             .0
             .try_borrow()
@@ -277,7 +292,7 @@ impl<'a, T> MembershipRef<'a, T> {
             MembershipCore::Weak { tree_core } => tree_core.as_ptr(),
             MembershipCore::Strong { tree_core, .. } => Rc::as_ptr(tree_core),
         };
-        self_ptr == Rc::as_ptr(tree_core)
+        self_ptr == tree_core
     }
 
     /// Decrements the aggregated lock count.
diff --git a/src/tree.rs b/src/tree.rs
index d25d1eb..62b24a7 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -88,6 +88,11 @@ impl<T> Drop for TreeCore<T> {
             .try_borrow()
             .expect("[validity] `TreeCore` is being accessed exclusively")
             .clone();
+        if !root_link.belongs_to_tree_core_ptr(self) {
+            // The entire tree has been moved to another tree.
+            // The nodes are not managed by this tree core anymore.
+            return;
+        }
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
-- 
2.43.0


From 1adcc8a7178863e9da1af8e5c2434892d8f14392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 03/13] fix: stop the stable depth-first traverser at the last
 event

It went out of the subtree, and emitted events twice when iterated from both ends.
---
 src/traverse/depth_first.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index 945ddc1..d4652f5 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -386,12 +386,29 @@ impl<T> StableDepthFirstTraverser<T> {
     }
 }
 
+impl<T> StableDepthFirstTraverser<T> {
+    /// Returns true if the two events are identical, i.e. no events remain
+    /// after either of the two is emitted.
+    #[must_use]
+    fn is_same_event(next: &DftEvent<FrozenNode<T>>, next_back: &DftEvent<FrozenNode<T>>) -> bool {
+        match (next, next_back) {
+            (DftEvent::Open(next), DftEvent::Open(next_back))
+            | (DftEvent::Close(next), DftEvent::Close(next_back)) => {
+                FrozenNode::ptr_eq(next, next_back)
+            }
+            _ => false,
+        }
+    }
+}
+
 impl<T> Iterator for StableDepthFirstTraverser<T> {
     type Item = DftEvent<FrozenNode<T>>;
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next.next().map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -413,9 +430,11 @@ impl<T> Iterator for StableDepthFirstTraverser<T> {
 impl<T> DoubleEndedIterator for StableDepthFirstTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev()
-            .map(|prev_of_next_back| (next, prev_of_next_back));
+        if !Self::is_same_event(&next, &next_back) {
+            self.next = next_back
+                .prev()
+                .map(|prev_of_next_back| (next, prev_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From 944f588b1c865534d9e98516be4e02d68ae0ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 04/13] fix: stop the stable siblings traverser at the last
 sibling

It went out of the range, and emitted nodes twice when iterated from both ends.
preceding_siblings_stable() skipped the first sibling rather than the node itself.
---
 src/node/frozen.rs       |  2 +-
 src/traverse/siblings.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/node/frozen.rs b/src/node/frozen.rs
index 97d277f..740666d 100644
--- a/src/node/frozen.rs
+++ b/src/node/frozen.rs
@@ -839,7 +839,7 @@ impl<T> FrozenNode<T> {
     #[must_use]
     pub fn preceding_siblings_stable(&self) -> traverse::StableSiblingsTraverser<T> {
         let mut iter = self.preceding_siblings_or_self_stable();
-        iter.next();
+        iter.next_back();
         iter
     }
 
diff --git a/src/traverse/siblings.rs b/src/traverse/siblings.rs
index d8d8ee5..2779477 100644
--- a/src/traverse/siblings.rs
+++ b/src/traverse/siblings.rs
@@ -168,9 +168,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 
     fn next(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next
-            .next_sibling()
-            .map(|next_of_next| (next_of_next, next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next
+                .next_sibling()
+                .map(|next_of_next| (next_of_next, next_back));
+        }
         Some(next)
     }
 
@@ -186,9 +188,11 @@ impl<T> Iterator for StableSiblingsTraverser<T> {
 impl<T> DoubleEndedIterator for StableSiblingsTraverser<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let (next, next_back) = self.next.take()?;
-        self.next = next_back
-            .prev_sibling()
-            .map(|next_of_next_back| (next, next_of_next_back));
+        if !FrozenNode::ptr_eq(&next, &next_back) {
+            self.next = next_back
+                .prev_sibling()
+                .map(|next_of_next_back| (next, next_of_next_back));
+        }
         Some(next_back)
     }
 }
-- 
2.43.0


From 250f7b9fe0f5622875b41fa2d789550eb010ce33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 05/13] fix: let DftEvent::close_current() proceed

It examined the same event forever.
---
 src/traverse/depth_first.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index d4652f5..d0f56f0 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -116,12 +116,19 @@ macro_rules! impl_dft_event_methods_for_node {
             #[must_use]
             pub fn close_current(&self) -> Option<$ty_node<T>> {
                 let mut depth = 0_usize;
+                let mut next = self.next()?;
                 loop {
-                    match self.next()? {
-                        Self::Open(_) => depth += 1,
+                    next = match next {
                         Self::Close(node) if depth == 0 => return Some(node),
-                        Self::Close(_) => depth -= 1,
-                    }
+                        Self::Open(_) => {
+                            depth += 1;
+                            next.next()?
+                        }
+                        Self::Close(_) => {
+                            depth -= 1;
+                            next.next()?
+                        }
+                    };
                 }
             }
 
-- 
2.43.0


From e10b3c74bdb84f653db76170766928465dc4d43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 06/13] fix: correct the size hint upper bound of the shallow
 depth-first traverser

The subtree of the node may have more nodes than the node itself.
---
 src/traverse/depth_first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traverse/depth_first.rs b/src/traverse/depth_first.rs
index d0f56f0..b5fcc19 100644
--- a/src/traverse/depth_first.rs
+++ b/src/traverse/depth_first.rs
@@ -676,7 +676,7 @@ impl<T> Iterator for StableShallowDepthFirstTraverser<T> {
                     // `Open` for `depth`, and `Close` for `depth..=depth_back`.
                     Ordering::Greater => depth - depth_back + 2,
                     // `Open` and `Close` for `depth`.
-                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => return (2, Some(2)),
+                    Ordering::Equal if FrozenNode::ptr_eq(next, next_back) => 2,
                     // `Open`, `Close`, `Open` again, and `Close` again for `depth`.
                     Ordering::Equal => 4,
                     // `Open` for `depth..=depth_back`, and `Close` for `depth`.
-- 
2.43.0


From 1034ecb928c1c633397566870ca4a2dbaaa3355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 07/13] fix: do not let TreeBuilder go out of the given root
 node

A builder created by with_root() with a non-root node went up to the parent of
the node and created nodes there, and is_root_closed() was never true.
---
 src/serial.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serial.rs b/src/serial.rs
index 482ecec..726388e 100644
--- a/src/serial.rs
+++ b/src/serial.rs
@@ -578,7 +578,12 @@ impl<T> TreeBuilder<T> {
                 *current = current.parent().ok_or(TreeBuildError::RootClosed)?;
             }
             // Now `current` is a parent node of the result node.
-            self.current = current.parent();
+            self.current = if self.root.as_ref().map_or(false, |r| current.ptr_eq_plain(r)) {
+                // The root of the subtree is closed, even if it has a parent.
+                None
+            } else {
+                current.parent()
+            };
             Ok(())
         } else if self.root.is_some() {
             Err(TreeBuildError::RootClosed)
-- 
2.43.0


From b87ef5fd932e6a68a190db44bf2762b773408b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 08/13] fix: complete the clone of a subtree before inserting
 it

Cloning a subtree into itself never finished, and an error on borrowing the data
left a partial clone in the destination tree.
---
 src/anchor.rs    | 22 ----------------------
 src/node/edit.rs | 42 +++++++++++++-----------------------------
 2 files changed, 13 insertions(+), 51 deletions(-)

diff --git a/src/anchor.rs b/src/anchor.rs
index 38e3fed..048af58 100644
--- a/src/anchor.rs
+++ b/src/anchor.rs
@@ -1,7 +1,5 @@
 //! Anchor types.
 
-use crate::node::{HierarchyError, HotNode};
-
 /// Relation of the node being adopted.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub enum AdoptAs {
@@ -67,18 +65,6 @@ impl<T> InsertAs<T> {
         }
     }
 
-    /// Returns the corresponding `AdoptAs` value.
-    #[inline]
-    #[must_use]
-    pub(super) fn to_adopt_as(&self) -> AdoptAs {
-        match self {
-            Self::FirstChildOf(_) => AdoptAs::FirstChild,
-            Self::LastChildOf(_) => AdoptAs::LastChild,
-            Self::PreviousSiblingOf(_) => AdoptAs::PreviousSibling,
-            Self::NextSiblingOf(_) => AdoptAs::NextSibling,
-        }
-    }
-
     /// Converts from `&InsertAs<T>` to `InsertAs<T>`.
     ///
     /// # Examples
@@ -102,11 +88,3 @@ impl<T> InsertAs<T> {
         }
     }
 }
-
-impl<T> InsertAs<&HotNode<T>> {
-    /// Creates a new node and inserts to the destination.
-    #[inline]
-    pub(super) fn try_create_node(&self, data: T) -> Result<HotNode<T>, HierarchyError> {
-        self.anchor().try_create_node_as(data, self.to_adopt_as())
-    }
-}
diff --git a/src/node/edit.rs b/src/node/edit.rs
index c1f2e0e..d18f427 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -6,7 +6,6 @@ use alloc::rc::Rc;
 
 use crate::anchor::{AdoptAs, InsertAs};
 use crate::node::{HierarchyError, HotNode, Node, NodeCoreLink, NodeCoreLinkWeak};
-use crate::serial::{TreeBuildError, TreeBuilder};
 use crate::traverse::DftEvent;
 use crate::tree::TreeCore;
 
@@ -795,35 +794,20 @@ pub(super) fn try_clone_insert_subtree<T>(
 where
     T: Clone,
 {
-    let subtree_root = dest.try_create_node(
-        source
-            .try_borrow_data()
-            .map_err(HierarchyError::BorrowNodeData)?
-            .clone(),
+    // Complete the clone before touching the destination, since the destination
+    // may be inside the source, and the clone may fail halfway.
+    let cloned = source
+        .try_clone_subtree()
+        .map_err(HierarchyError::BorrowNodeData)?;
+    let dest_tree_core = dest.anchor().node_core().tree_core();
+    detach_and_move_to_another_tree(
+        cloned.node_core(),
+        dest.map(HotNode::node_core),
+        &dest_tree_core,
     )?;
-    let mut events = source.to_events();
-    // Skip the opening of the root, since it will be processed by calling
-    // `TreeBuilder::with_root()`.
-    events.next();
-    events
-        .try_fold(
-            TreeBuilder::with_root(subtree_root),
-            |mut builder, ev_res| {
-                builder.push_event(ev_res?)?;
-                Ok(builder)
-            },
-        )
-        .and_then(|builder| builder.finish())
-        .map(|node| {
-            node.bundle_new_hierarchy_edit_grant()
-                .expect("[consistency] the hierarchy of the destination tree is already editable")
-        })
-        .map_err(|e| match e {
-            TreeBuildError::BorrowData(e) => HierarchyError::BorrowNodeData(e),
-            TreeBuildError::RootNotOpened | TreeBuildError::RootClosed => {
-                unreachable!("[validity] subtree should be consistently serializable")
-            }
-        })
+    Ok(cloned
+        .bundle_new_hierarchy_edit_grant()
+        .expect("[consistency] the hierarchy of the destination tree is already editable"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 6f544742f2b0d8c6d418f4efce9f76da887e0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 09/13] fix: print the subtree of a FrozenNode as FrozenNode

---
 src/node/debug_print/debug.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/debug_print/debug.rs b/src/node/debug_print/debug.rs
index 5eff466..b9b1502 100644
--- a/src/node/debug_print/debug.rs
+++ b/src/node/debug_print/debug.rs
@@ -141,7 +141,7 @@ impl<'a, T> DebugPrintSubtree<'a, T> {
     pub(in crate::node) fn new_frozen(link: &'a NodeCoreLink<T>) -> Self {
         Self {
             link,
-            node_type: NodeType::Plain,
+            node_type: NodeType::Frozen,
         }
     }
 
-- 
2.43.0


From a5814af56140c25a1a07a64c7f7cae0594cb2e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 10/13] fix: do not overflow the depth of the non-allocating
 breadth-first traverser

---
 src/traverse/breadth_first.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/traverse/breadth_first.rs b/src/traverse/breadth_first.rs
index 1b2a49b..9b0ffaa 100644
--- a/src/traverse/breadth_first.rs
+++ b/src/traverse/breadth_first.rs
@@ -80,7 +80,14 @@ impl<T> Iterator for NonAllocatingBreadthFirstTraverser<T> {
         }
 
         // No more nodes in the current depth. Go deeper.
-        self.current_depth += 1;
+        self.current_depth = match self.current_depth.checked_add(1) {
+            Some(v) => v,
+            None => {
+                // No nodes can be deeper.
+                self.root = None;
+                return None;
+            }
+        };
         self.inner = StableShallowDepthFirstTraverser::with_toplevel(
             self.root.clone(),
             Some(self.current_depth),
-- 
2.43.0


From 505a7f6cfb6bc6774a8a29adf1e753ae658c0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 11/13] fix: do not panic on upgrading NodeWeak while the tree
 is being dropped

---
 src/node/plain.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/plain.rs b/src/node/plain.rs
index 98240b2..4336229 100644
--- a/src/node/plain.rs
+++ b/src/node/plain.rs
@@ -2942,6 +2942,7 @@ impl<T> NodeWeak<T> {
     #[must_use]
     pub fn upgrade(&self) -> Option<Node<T>> {
         let link = self.link.upgrade()?;
-        Some(Node::with_node_core(link))
+        // The tree may be already dropped if the node is being dropped.
+        NodeLink::new(link).map(Node::with_node_link)
     }
 }
-- 
2.43.0


From 4f38b6c8233f589c813737b9e0a4d7cf6831ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:39 +0000
Subject: [PATCH 12/13] fix: keep the link to the last sibling when the last
 child is removed

---
 src/node/edit.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/node/edit.rs b/src/node/edit.rs
index d18f427..eac4fc2 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -92,8 +92,11 @@ impl<'a, T> OrphanRoot<'a, T> {
         if let Some(prev_sibling) = prev_sibling {
             prev_sibling.replace_next_sibling(next_sibling.clone());
         }
-        if let Some(next_sibling) = next_sibling {
-            next_sibling.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
+        // If the last sibling is unlinked, the first sibling refers to it.
+        let next_sibling_cyclic =
+            next_sibling.or_else(|| parent.and_then(|parent| parent.first_child_link()));
+        if let Some(next_sibling_cyclic) = next_sibling_cyclic {
+            next_sibling_cyclic.replace_prev_sibling_cyclic(prev_sibling_cyclic.downgrade());
         }
 
         // Update `node_to_unlink`.
@@ -711,6 +714,11 @@ pub(super) fn try_replace_with_children<T>(this: &NodeCoreLink<T>) -> Result<(),
                 }
                 (Some(prev_sibling_link), None) => {
                     prev_sibling_link.replace_next_sibling(None);
+                    let first_sibling_link = parent_link
+                        .first_child_link()
+                        .expect("[validity] the parent has at least one child (prev of `self`)");
+                    // `prev_sibling_link` is the new last sibling.
+                    first_sibling_link.replace_prev_sibling_cyclic(prev_sibling_link.downgrade());
                 }
                 (None, Some(next_sibling_link)) => {
                     let last_sibling_link_weak = parent_link
-- 
2.43.0


From 43b8c29d666b9bf42e5e9adbcb025ab93ca7e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 13/13] fix: do not keep the nodes moved to another tree alive
 by the source tree

A handle of the tree whose nodes have been entirely moved to another tree kept
the data of its former root alive even after the other tree had been released.
---
 src/node.rs            |  3 +-
 src/node/edit.rs       |  6 +++-
 src/node/internal.rs   | 11 ++------
 src/node/membership.rs |  9 +-----
 src/tree.rs            | 64 ++++++++++++++++++++++++++++++++----------
 5 files changed, 58 insertions(+), 35 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index 345a7f2..3ba8787 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -15,8 +15,7 @@ pub(crate) use self::debug_print::DebugPrintSubtreeDescendant;
 pub use self::debug_print::{DebugPrettyPrint, DebugPrintNodeLocal, DebugPrintSubtree};
 pub use self::frozen::FrozenNode;
 pub use self::hot::HotNode;
-use self::internal::NodeCoreLinkWeak;
-pub(crate) use self::internal::{NodeCoreLink, NodeLink};
+pub(crate) use self::internal::{NodeCoreLink, NodeCoreLinkWeak, NodeLink};
 pub use self::plain::{Node, NodeWeak};
 
 /// Hierarchy modification error.
diff --git a/src/node/edit.rs b/src/node/edit.rs
index eac4fc2..13ae5d5 100644
--- a/src/node/edit.rs
+++ b/src/node/edit.rs
@@ -402,12 +402,16 @@ pub(super) fn detach_and_move_to_another_tree<T>(
 
     // Keep the source tree core alive until the node is moved completely, since
     // the core has no nodes anymore if the entire tree is moved.
-    let _src_tree_core = this.tree_core();
+    let src_tree_core = this.tree_core();
+    let is_entire_tree = this.is_root();
 
     let orphan_this = OrphanRoot::new_by_unlink(this);
     orphan_this
         .set_tree_core(dest_tree_core)
         .expect("[consistency] brand-new tree hierarchy can be locked by any types of lock");
+    if is_entire_tree {
+        src_tree_core.disown_root(this);
+    }
     orphan_this.insert(dest)
 }
 
diff --git a/src/node/internal.rs b/src/node/internal.rs
index b820285..45f29fe 100644
--- a/src/node/internal.rs
+++ b/src/node/internal.rs
@@ -75,7 +75,7 @@ impl<T> NodeCoreLink<T> {
     /// Creates a weakened link.
     #[inline]
     #[must_use]
-    pub(super) fn downgrade(&self) -> NodeCoreLinkWeak<T> {
+    pub(crate) fn downgrade(&self) -> NodeCoreLinkWeak<T> {
         NodeCoreLinkWeak {
             core: Rc::downgrade(&self.core),
         }
@@ -88,13 +88,6 @@ impl<T> NodeCoreLink<T> {
         self.membership_ref().ptr_eq_tree_core(tree_core)
     }
 
-    /// Returns true if the node belongs to the tree with the core at the given address.
-    #[inline]
-    #[must_use]
-    pub(crate) fn belongs_to_tree_core_ptr(&self, tree_core: *const TreeCore<T>) -> bool {
-        self.membership_ref().ptr_eq_tree_core_ptr(tree_core)
-    }
-
     /// Returns the depth-first traverser for the subtree.
     #[inline]
     #[must_use]
@@ -575,7 +568,7 @@ impl<T> NodeCoreLinkWeak<T> {
     /// Creates a strong intra node link from the weak one.
     #[inline]
     #[must_use]
-    pub(super) fn upgrade(&self) -> Option<NodeCoreLink<T>> {
+    pub(crate) fn upgrade(&self) -> Option<NodeCoreLink<T>> {
         Weak::upgrade(&self.core).map(|core| NodeCoreLink { core })
     }
 
diff --git a/src/node/membership.rs b/src/node/membership.rs
index 6f6c981..473d940 100644
--- a/src/node/membership.rs
+++ b/src/node/membership.rs
@@ -275,15 +275,8 @@ impl<'a, T> MembershipRef<'a, T> {
     }
 
     /// Returns true if the membership refers to the same tree core allocation.
-    #[inline]
     #[must_use]
     pub(super) fn ptr_eq_tree_core(&self, tree_core: &Rc<TreeCore<T>>) -> bool {
-        self.ptr_eq_tree_core_ptr(Rc::as_ptr(tree_core))
-    }
-
-    /// Returns true if the node belongs to the tree with the core at the given address.
-    #[must_use]
-    pub(super) fn ptr_eq_tree_core_ptr(&self, tree_core: *const TreeCore<T>) -> bool {
         let core = self
             .0
             .try_borrow()
@@ -292,7 +285,7 @@ impl<'a, T> MembershipRef<'a, T> {
             MembershipCore::Weak { tree_core } => tree_core.as_ptr(),
             MembershipCore::Strong { tree_core, .. } => Rc::as_ptr(tree_core),
         };
-        self_ptr == tree_core
+        self_ptr == Rc::as_ptr(tree_core)
     }
 
     /// Decrements the aggregated lock count.
diff --git a/src/tree.rs b/src/tree.rs
index 62b24a7..89bbb58 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -5,11 +5,10 @@ mod lock;
 
 use core::cell::{BorrowError, RefCell};
 use core::fmt;
-use core::mem;
 
 use alloc::rc::{Rc, Weak};
 
-use crate::node::{Node, NodeCoreLink};
+use crate::node::{Node, NodeCoreLink, NodeCoreLinkWeak};
 use crate::traverse::DftEvent;
 
 pub use self::debug_print::{DebugPrettyPrint, DebugPrintTree, DebugPrintTreeLocal};
@@ -29,28 +28,47 @@ pub use self::lock::{
 /// referred as `Rc<RefCell<TreeCore<T>>>` or `Weak<RefCell<TreeCore<T>>>`.
 pub(crate) struct TreeCore<T> {
     /// Root node.
-    root: RefCell<NodeCoreLink<T>>,
+    root: RefCell<RootLink<T>>,
     /// Hierarchy lock manager.
     lock_manager: HierarchyLockManager,
 }
 
+/// A link from a tree to its root node.
+enum RootLink<T> {
+    /// The tree has nodes, and owns them by this link.
+    Owned(NodeCoreLink<T>),
+    /// The entire tree has been moved to another tree, and the other tree owns the nodes.
+    Moved(NodeCoreLinkWeak<T>),
+}
+
 impl<T> TreeCore<T> {
     /// Creates a new tree core.
     #[must_use]
     pub(crate) fn new_rc(root: NodeCoreLink<T>) -> Rc<Self> {
         Rc::new(Self {
-            root: RefCell::new(root),
+            root: RefCell::new(RootLink::Owned(root)),
             lock_manager: Default::default(),
         })
     }
 
     /// Returns a link to the root node.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the entire tree has been moved to another tree and the nodes
+    /// are already released.
     #[must_use]
     pub(crate) fn root_link(&self) -> NodeCoreLink<T> {
-        self.root
+        let root = self
+            .root
             .try_borrow()
-            .expect("[consistency] `TreeCore::root` should not be borrowed nestedly")
-            .clone()
+            .expect("[consistency] `TreeCore::root` should not be borrowed nestedly");
+        match &*root {
+            RootLink::Owned(link) => link.clone(),
+            RootLink::Moved(link) => link
+                .upgrade()
+                .expect("[precondition] the nodes moved to another tree must be alive"),
+        }
     }
 
     /// Transfers a lock.
@@ -70,12 +88,21 @@ impl<T> TreeCore<T> {
     }
 
     /// Makes the tree track another node as a root.
-    pub fn replace_root(&self, new_root: NodeCoreLink<T>) -> NodeCoreLink<T> {
+    pub fn replace_root(&self, new_root: NodeCoreLink<T>) {
         let mut root = self
             .root
             .try_borrow_mut()
             .expect("[consistency] `TreeCore::root` should not be borrowed nestedly");
-        mem::replace(&mut *root, new_root)
+        *root = RootLink::Owned(new_root);
+    }
+
+    /// Disowns the nodes, which have been moved to another tree entirely.
+    pub(crate) fn disown_root(&self, old_root: &NodeCoreLink<T>) {
+        let mut root = self
+            .root
+            .try_borrow_mut()
+            .expect("[consistency] `TreeCore::root` should not be borrowed nestedly");
+        *root = RootLink::Moved(old_root.downgrade());
     }
 }
 
@@ -83,16 +110,15 @@ impl<T> TreeCore<T> {
 impl<T> Drop for TreeCore<T> {
     fn drop(&mut self) {
         // This panic should never happen (unless there are a bug).
-        let root_link = self
+        let root_link = match &*self
             .root
             .try_borrow()
             .expect("[validity] `TreeCore` is being accessed exclusively")
-            .clone();
-        if !root_link.belongs_to_tree_core_ptr(self) {
-            // The entire tree has been moved to another tree.
+        {
+            RootLink::Owned(link) => link.clone(),
             // The nodes are not managed by this tree core anymore.
-            return;
-        }
+            RootLink::Moved(_) => return,
+        };
         // Not using `DepthFirstLinkTraverser` here is intentional.
         // The links would be in inconsistent states before being dropped, so
         // avoid introducing hidden invariants from `DepthFirstLinkTraverser`.
@@ -205,6 +231,14 @@ impl<T> Tree<T> {
 
     /// Returns the root node.
     ///
+    /// If the entire tree has been moved to another tree, this returns the node
+    /// that was the root.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the entire tree has been moved to another tree and the nodes
+    /// are already released.
+    ///
     /// # Examples
     ///
     /// ```
-- 
2.43.0

