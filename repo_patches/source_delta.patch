From 7a0462c39697854963d96864f1f6e5f6e990cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:23 +0000
Subject: [PATCH 1/9] verif hook: export OOMError under cfg(congee_verif)

---
 src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 619312b..63c841c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -472,3 +472,14 @@ where
         }
     }
 }
+
+/// Hook of the verification harness: lets an [`Allocator`] written outside the crate report failure.
+#[allow(unexpected_cfgs)]
+#[cfg(congee_verif)]
+pub mod verif {
+    pub use crate::error::OOMError;
+
+    pub fn oom_error() -> OOMError {
+        OOMError::new()
+    }
+}
-- 
2.43.0


From df28804d234eda3d9ed49806a4b554027c8283c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 2/9] fix: Node16::get_children reads the child count once

A concurrent removal between the two reads made 'count - 1' underflow.
---
 src/node_16.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node_16.rs b/src/node_16.rs
index d52ea4f..efaa805 100644
--- a/src/node_16.rs
+++ b/src/node_16.rs
@@ -65,7 +65,9 @@ impl Node for Node16 {
     }
 
     fn get_children(&self, start: u8, end: u8) -> NodeIter {
-        if self.base.meta.count == 0 {
+        // Read the count only once: it may change under us, and readers only find out afterwards.
+        let count = self.base.meta.count as usize;
+        if count == 0 {
             // FIXME: the node may be empty due to deletion, this is not intended, we should fix the delete logic
             return NodeIter::N16(Node16Iter {
                 node: self,
@@ -74,9 +76,7 @@ impl Node for Node16 {
             });
         }
         let start_pos = self.get_child_pos(start).unwrap_or(0);
-        let end_pos = self
-            .get_child_pos(end)
-            .unwrap_or(self.base.meta.count as usize - 1);
+        let end_pos = self.get_child_pos(end).unwrap_or(count - 1);
 
         debug_assert!(end_pos < 16);
 
-- 
2.43.0


From 356e9911e819410830250d1064fc799c0f2f4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 3/9] fix: Node48::get_child reads the child index once

A concurrent removal between the check and the use of the index made the
reader use the empty marker as an index, out of bounds.
---
 src/node_48.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node_48.rs b/src/node_48.rs
index 91b6133..e7e8b41 100644
--- a/src/node_48.rs
+++ b/src/node_48.rs
@@ -115,11 +115,11 @@ impl Node for Node48 {
     }
 
     fn get_child(&self, key: u8) -> Option<NodePtr> {
-        let pos = unsafe { self.child_idx.get_unchecked(key as usize) };
-        if *pos == EMPTY_MARKER {
+        let pos = unsafe { *self.child_idx.get_unchecked(key as usize) };
+        if pos == EMPTY_MARKER {
             None
         } else {
-            let child = unsafe { self.children.get_unchecked(*pos as usize) };
+            let child = unsafe { self.children.get_unchecked(pos as usize) };
             Some(*child)
         }
     }
-- 
2.43.0


From f4017d321c1e379f96920dfeae409adf3310cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 4/9] fix: DefaultAllocator reports failure instead of
 panicking

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63c841c..47ff217 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -61,7 +61,7 @@ impl Allocator for DefaultAllocator {
     fn allocate(&self, layout: std::alloc::Layout) -> Result<std::ptr::NonNull<[u8]>, OOMError> {
         let ptr = unsafe { std::alloc::alloc(layout) };
         let ptr_slice = std::ptr::slice_from_raw_parts_mut(ptr, layout.size());
-        Ok(std::ptr::NonNull::new(ptr_slice).unwrap())
+        std::ptr::NonNull::new(ptr_slice).ok_or_else(OOMError::new)
     }
 
     unsafe fn deallocate(&self, ptr: std::ptr::NonNull<u8>, layout: std::alloc::Layout) {
-- 
2.43.0


From 9a3c324a8ed44e70756c66d6ce5c6e717324487e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 5/9] fix: nodes that never became part of the tree are given
 back to the allocator

When the second allocation of a prefix split failed, or a closure panicked
while its new leaf was being built, the nodes allocated so far leaked.
---
 src/base_node.rs |  9 +++++----
 src/node_ptr.rs  | 15 ++++++++++-----
 src/tree.rs      |  8 ++++----
 3 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/base_node.rs b/src/base_node.rs
index 3b3c385..b11647c 100644
--- a/src/base_node.rs
+++ b/src/base_node.rs
@@ -198,10 +198,10 @@ impl BaseNode {
         }
     }
 
-    pub(crate) fn make_node<N: Node>(
+    pub(crate) fn make_node<'a, N: Node, A: Allocator>(
         prefix: &[u8],
-        allocator: &impl Allocator,
-    ) -> Result<AllocatedNode<N>, ArtError> {
+        allocator: &'a A,
+    ) -> Result<AllocatedNode<'a, N, A>, ArtError> {
         let layout = N::get_type().node_layout();
         let ptr = allocator
             .allocate_zeroed(layout)
@@ -218,6 +218,7 @@ impl BaseNode {
 
             Ok(AllocatedNode::new(
                 NonNull::new(base_ptr as *mut N).unwrap(),
+                allocator,
             ))
         }
     }
@@ -344,7 +345,7 @@ impl BaseNode {
         let mut write_n = n.upgrade().map_err(|v| v.1)?;
 
         let mut n_big =
-            BaseNode::make_node::<BiggerT>(write_n.as_ref().base().prefix(), allocator)?;
+            BaseNode::make_node::<BiggerT, A>(write_n.as_ref().base().prefix(), allocator)?;
         write_n.as_ref().copy_to(n_big.as_mut());
         n_big.as_mut().insert(val.0, val.1);
 
diff --git a/src/node_ptr.rs b/src/node_ptr.rs
index 87e29e0..60fc1de 100644
--- a/src/node_ptr.rs
+++ b/src/node_ptr.rs
@@ -3,6 +3,7 @@ use std::{fmt::Debug, ptr::NonNull};
 use crate::{
     base_node::{BaseNode, Node},
     utils::KeyTracker,
+    Allocator,
 };
 
 pub(crate) struct ChildIsPayload<'a> {
@@ -88,13 +89,15 @@ impl NodePtr {
     }
 }
 
-pub(crate) struct AllocatedNode<N: Node> {
+/// A node that is not part of the tree yet; given back to its allocator unless it becomes part of it.
+pub(crate) struct AllocatedNode<'a, N: Node, A: Allocator> {
     ptr: NonNull<N>,
+    allocator: &'a A,
 }
 
-impl<N: Node> AllocatedNode<N> {
-    pub(crate) fn new(ptr: NonNull<N>) -> Self {
-        Self { ptr }
+impl<'a, N: Node, A: Allocator> AllocatedNode<'a, N, A> {
+    pub(crate) fn new(ptr: NonNull<N>, allocator: &'a A) -> Self {
+        Self { ptr, allocator }
     }
 
     pub(crate) fn as_mut(&mut self) -> &mut N {
@@ -114,10 +117,12 @@ impl<N: Node> AllocatedNode<N> {
     }
 }
 
-impl<N: Node> Drop for AllocatedNode<N> {
+impl<N: Node, A: Allocator> Drop for AllocatedNode<'_, N, A> {
     fn drop(&mut self) {
         unsafe {
             std::ptr::drop_in_place(self.ptr.as_mut());
+            self.allocator
+                .deallocate(self.ptr.cast(), N::get_type().node_layout());
         }
     }
 }
diff --git a/src/tree.rs b/src/tree.rs
index a25157f..b7ef739 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -87,7 +87,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> Drop for RawCongee<K_LEN,
 
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     pub fn new(allocator: A, drain_callback: Arc<dyn Fn([u8; K_LEN], usize)>) -> Self {
-        let root = BaseNode::make_node::<Node256>(&[], &allocator)
+        let root = BaseNode::make_node::<Node256, A>(&[], &allocator)
             .expect("Can't allocate memory for root node!");
         RawCongee {
             root: root.into_non_null(),
@@ -254,7 +254,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                                 Ok(_is_last_level) => NodePtr::from_payload(tid_func(None)),
                                 Err(_is_sub_node) => {
                                     let new_prefix = k;
-                                    let mut n4 = BaseNode::make_node::<Node4>(
+                                    let mut n4 = BaseNode::make_node::<Node4, A>(
                                         &new_prefix[..k.len() - 1],
                                         &self.allocator,
                                     )?;
@@ -320,7 +320,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                     let mut write_n = node.upgrade().map_err(|(_n, v)| v)?;
 
                     // 1) Create new node which will be parent of node, Set common prefix, level to this node
-                    let mut new_middle_node = BaseNode::make_node::<Node4>(
+                    let mut new_middle_node = BaseNode::make_node::<Node4, A>(
                         write_n.as_ref().prefix()[0..next_level].as_ref(),
                         &self.allocator,
                     )?;
@@ -334,7 +334,7 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                     } else {
                         // otherwise create a new node
                         let mut single_new_node =
-                            BaseNode::make_node::<Node4>(&k[..k.len() - 1], &self.allocator)?;
+                            BaseNode::make_node::<Node4, A>(&k[..k.len() - 1], &self.allocator)?;
 
                         single_new_node
                             .as_mut()
-- 
2.43.0


From ccd6586368a58dcd389ad4054c53d5873f3eeb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 6/9] fix: range scans validate a node after its last child was
 read

Children shifted by a concurrent insert or removal while the last ones were
read could hide keys that were in the tree all along; a missing child was
trusted without validating the node it was looked up in.
---
 src/range_scan.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/range_scan.rs b/src/range_scan.rs
index 401a3c1..72dfca0 100644
--- a/src/range_scan.rs
+++ b/src/range_scan.rs
@@ -103,16 +103,19 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                             key_tracker.pop();
 
                             if self.to_continue {
-                                return Ok(self.result_found);
+                                break;
                             }
                         }
+                        node.check_version()?;
                     } else {
-                        let next_node_tmp = if let Some(n) = node.as_ref().get_child(start_level) {
+                        let next_node_tmp = node.as_ref().get_child(start_level);
+                        node.check_version()?;
+
+                        let next_node_tmp = if let Some(n) = next_node_tmp {
                             n
                         } else {
                             return Ok(0);
                         };
-                        node.check_version()?;
 
                         if key_tracker.len() == (K_LEN - 1) {
                             self.copy_node_recursive(next_node_tmp, &key_tracker)?;
@@ -193,6 +196,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => {
@@ -251,6 +255,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
                         break;
                     }
                 }
+                node.check_version()?;
                 Ok(())
             }
             cmp::Ordering::Less => Ok(()),
@@ -299,6 +304,7 @@ impl<'a, const K_LEN: usize> RangeScan<'a, K_LEN> {
 
                     key_tracker.pop();
                 }
+                node.check_version()?;
             }
         };
 
-- 
2.43.0


From bc562fab8a4ef777c602c3aa3df632638cabe45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 7/9] fix: stats pins the epoch, retries, and validates before
 following children

A statistics call racing with a writer panicked on a locked node, and
followed child pointers into memory that could already be reclaimed.
---
 src/stats.rs | 31 +++++++++++++++++++++----------
 src/tree.rs  | 11 +++++++++--
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/stats.rs b/src/stats.rs
index a4a0af9..830e96c 100644
--- a/src/stats.rs
+++ b/src/stats.rs
@@ -2,7 +2,9 @@ use std::{collections::HashMap, fmt::Display, ptr::NonNull};
 
 use crate::{
     base_node::{BaseNode, NodeType},
+    error::ArtError,
     tree::{CongeeVisitor, RawCongee},
+    utils::Backoff,
     Allocator,
 };
 
@@ -125,8 +127,12 @@ struct StatsVisitor {
 }
 
 impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
-    fn pre_visit_sub_node(&mut self, node: NonNull<BaseNode>, tree_level: usize) {
-        let node = BaseNode::read_lock(node).unwrap();
+    fn pre_visit_sub_node(
+        &mut self,
+        node: NonNull<BaseNode>,
+        tree_level: usize,
+    ) -> Result<(), ArtError> {
+        let node = BaseNode::read_lock(node)?;
 
         self.node_stats
             .levels
@@ -191,20 +197,25 @@ impl<const K_LEN: usize> CongeeVisitor<K_LEN> for StatsVisitor {
                     .value_count += node.as_ref().value_count();
             }
         }
+        Ok(())
     }
 }
 
 impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     /// Returns the node stats for the tree.
     pub fn stats(&self) -> NodeStats {
-        let mut visitor = StatsVisitor {
-            node_stats: NodeStats::default(),
-        };
-
-        self.dfs_visitor_slow(&mut visitor).unwrap();
         let pin = crossbeam_epoch::pin();
-        visitor.node_stats.kv_pairs = self.value_count(&pin);
-
-        visitor.node_stats
+        let backoff = Backoff::new();
+        loop {
+            let mut visitor = StatsVisitor {
+                node_stats: NodeStats::default(),
+            };
+
+            if self.dfs_visitor_slow(&mut visitor).is_ok() {
+                visitor.node_stats.kv_pairs = self.value_count(&pin);
+                return visitor.node_stats;
+            }
+            backoff.spin();
+        }
     }
 }
diff --git a/src/tree.rs b/src/tree.rs
index b7ef739..9858bff 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -37,7 +37,13 @@ impl<const K_LEN: usize> Default for RawCongee<K_LEN> {
 
 pub(crate) trait CongeeVisitor<const K_LEN: usize> {
     fn visit_payload(&mut self, _key: [u8; K_LEN], _payload: usize) {}
-    fn pre_visit_sub_node(&mut self, _node: NonNull<BaseNode>, _tree_level: usize) {}
+    fn pre_visit_sub_node(
+        &mut self,
+        _node: NonNull<BaseNode>,
+        _tree_level: usize,
+    ) -> Result<(), ArtError> {
+        Ok(())
+    }
     fn post_visit_sub_node(&mut self, _node: NonNull<BaseNode>, _tree_level: usize) {}
 }
 
@@ -181,10 +187,11 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                 visitor.visit_payload(k, v);
             }
             VisitingEntry::SubNode(node_ptr) => {
-                visitor.pre_visit_sub_node(node_ptr, tree_level);
+                visitor.pre_visit_sub_node(node_ptr, tree_level)?;
                 let node_lock = BaseNode::read_lock(node_ptr)?;
                 let children = node_lock.as_ref().get_children(0, 255);
                 for (k, child_ptr) in children {
+                    node_lock.check_version()?;
                     let next = match child_ptr.downcast::<K_LEN>(node_lock.as_ref().prefix().len())
                     {
                         PtrType::Payload(tid) => {
-- 
2.43.0


From 95c94591abd7894d1e6938467964597fefca634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 8/9] fix: removing the last key of a subtree unlinks every
 emptied node

Only the node that held the key was unlinked. Inner nodes left without
children stayed for ever: is_empty() kept answering false on a tree without
keys, and memory grew with the number of distinct prefixes ever used.
---
 src/tree.rs | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 9858bff..9ed95d4 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -5,7 +5,7 @@ use crossbeam_epoch::Guard;
 use crate::{
     base_node::{BaseNode, Node, Prefix},
     error::{ArtError, OOMError},
-    lock::ReadGuard,
+    lock::{ReadGuard, WriteGuard},
     node_256::Node256,
     node_4::Node4,
     node_ptr::{ChildIsPayload, ChildIsSubNode, NodePtr, PtrType},
@@ -493,7 +493,9 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
     where
         F: FnMut(usize) -> Option<usize>,
     {
-        let mut parent: Option<(ReadGuard, u8)> = None;
+        // The nodes above `node`, each with the key of the child that was followed.
+        let mut path: [Option<(ReadGuard, u8)>; K_LEN] = std::array::from_fn(|_| None);
+        let mut depth = 0;
         let mut node_key: u8;
         let mut level = 0;
         let mut node = BaseNode::read_lock_root(self.root)?;
@@ -534,22 +536,41 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                         }
                         None => {
                             // new value is none, we need to delete this entry
-                            debug_assert!(parent.is_some()); // reaching leaf means we must have parent, bcs root can't be leaf
+                            debug_assert!(depth > 0); // reaching leaf means we must have parent, bcs root can't be leaf
                             if node.as_ref().value_count() == 1 {
-                                let (parent_node, parent_key) = parent.unwrap();
+                                // The node becomes empty, and so does every node right above it
+                                // that has no other child: unlink them all, but never the root.
+                                let mut top = depth - 1;
+                                while top > 0
+                                    && path[top]
+                                        .as_ref()
+                                        .is_some_and(|(n, _)| n.as_ref().value_count() == 1)
+                                {
+                                    top -= 1;
+                                }
+
+                                let (parent_node, parent_key) = path[top].take().unwrap();
                                 let mut write_p = parent_node.upgrade().map_err(|(_n, v)| v)?;
 
-                                let mut write_n = node.upgrade().map_err(|(_n, v)| v)?;
+                                let mut emptied: [Option<WriteGuard>; K_LEN] =
+                                    std::array::from_fn(|_| None);
+                                for i in top + 1..depth {
+                                    let (n, _) = path[i].take().unwrap();
+                                    emptied[i] = Some(n.upgrade().map_err(|(_n, v)| v)?);
+                                }
+                                emptied[depth] = Some(node.upgrade().map_err(|(_n, v)| v)?);
 
                                 write_p.as_mut().remove(parent_key);
 
-                                write_n.mark_obsolete();
-                                let allocator = self.allocator.clone();
-                                guard.defer(move || unsafe {
-                                    let ptr = NonNull::from(write_n.as_mut());
-                                    std::mem::forget(write_n);
-                                    BaseNode::drop_node(ptr, allocator);
-                                });
+                                for mut write_n in emptied.into_iter().flatten() {
+                                    write_n.mark_obsolete();
+                                    let allocator = self.allocator.clone();
+                                    guard.defer(move || unsafe {
+                                        let ptr = NonNull::from(write_n.as_mut());
+                                        std::mem::forget(write_n);
+                                        BaseNode::drop_node(ptr, allocator);
+                                    });
+                                }
                             } else {
                                 let mut write_n = node.upgrade().map_err(|(_n, v)| v)?;
 
@@ -561,7 +582,8 @@ impl<const K_LEN: usize, A: Allocator + Clone + Send> RawCongee<K_LEN, A> {
                 }
                 PtrType::SubNode(sub_node) => {
                     level += 1;
-                    parent = Some((node, node_key));
+                    path[depth] = Some((node, node_key));
+                    depth += 1;
                     node = BaseNode::read_lock(sub_node)?;
                 }
             }
-- 
2.43.0


From b363f2ed0bc799efdfc078067a9aeceaaf8c44cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 9/9] fix: order the optimistic lock's data accesses against
 its version

Readers load a node's data and then its version again; the load being Acquire does not keep the
data reads before it. Writers take the lock with a Release compare-exchange, which does not keep
the writes after it. On weakly ordered machines a reader can therefore combine data of two versions
and still validate. Add the two fences a sequence lock needs.
---
 src/lock.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lock.rs b/src/lock.rs
index 6bab45c..3b23804 100644
--- a/src/lock.rs
+++ b/src/lock.rs
@@ -28,9 +28,13 @@ impl<'a, T: Node> TypedReadGuard<'a, T> {
                 Ordering::Release,
                 Ordering::Relaxed,
             ) {
-            Ok(_) => Ok(TypedWriteGuard {
-                node: unsafe { &mut *(self.node as *mut T) },
-            }),
+            Ok(_) => {
+                // Whoever sees a write made under the lock must find the lock in check_version.
+                std::sync::atomic::fence(Ordering::Release);
+                Ok(TypedWriteGuard {
+                    node: unsafe { &mut *(self.node as *mut T) },
+                })
+            }
             Err(_v) => {
                 #[cfg(all(feature = "shuttle", test))]
                 shuttle::thread::yield_now();
@@ -86,6 +90,8 @@ impl<'a> ReadGuard<'a> {
     }
 
     pub(crate) fn check_version(&self) -> Result<usize, ArtError> {
+        // The reads this validates must not pass the load of the version.
+        std::sync::atomic::fence(Ordering::Acquire);
         let v = self
             .as_ref()
             .type_version_lock_obsolete
@@ -130,9 +136,13 @@ impl<'a> ReadGuard<'a> {
                 Ordering::Release,
                 Ordering::Relaxed,
             ) {
-            Ok(_) => Ok(WriteGuard {
-                node: unsafe { &mut *(self.node.as_ptr()) },
-            }),
+            Ok(_) => {
+                // Whoever sees a write made under the lock must find the lock in check_version.
+                std::sync::atomic::fence(Ordering::Release);
+                Ok(WriteGuard {
+                    node: unsafe { &mut *(self.node.as_ptr()) },
+                })
+            }
             Err(_v) => {
                 #[cfg(all(feature = "shuttle", test))]
                 shuttle::thread::yield_now();
-- 
2.43.0

