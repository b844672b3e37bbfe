From 68f2e1ac2657b7735ada0840ce8e8925e3f10708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 1/7] fix: do not drop an element twice when its destructor
 panics in truncate

---
 src/vec.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 644bbb3..db58ccc 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -625,18 +625,16 @@ impl<T> Truncate for Vec<T> {
         let current_len = self.len();
         unsafe {
             let mut ptr = self.as_mut_ptr().add(current_len);
-            // Set the final length at the end, keeping in mind that
-            // dropping an element might panic. Works around a missed
-            // optimization, as seen in the following issue:
-            // https://github.com/rust-lang/rust/issues/51802
+            // Dropping an element might panic, so every element leaves the
+            // vector before it is dropped: it must not be dropped again.
             let mut local_len = self.len();
 
             // drop any extra elements
             for _ in len..current_len {
                 ptr = ptr.offset(-1);
-                core::ptr::drop_in_place(ptr);
                 local_len -= 1;
                 self.set_len(local_len);
+                core::ptr::drop_in_place(ptr);
             }
         }
     }
-- 
2.43.0


From e6b1d82dbace01ff4e157b0ac1e26c39448a41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 2/7] fix: do not allocate while reporting an allocation
 failure as io::Error

---
 src/vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index db58ccc..453d4e8 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -254,11 +254,12 @@ pub mod std_io {
         limit: u64,
         buf: &mut TryVec<u8>,
     ) -> io::Result<usize> {
+        // Errors are built from their kind alone: attaching a message would allocate
         let additional = limit
             .try_into()
-            .map_err(|e| io::Error::new(io::ErrorKind::Other, e))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
         buf.reserve(additional)
-            .map_err(|_| io::Error::new(io::ErrorKind::Other, "reserve allocation failed"))?;
+            .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
         let bytes_read = src.take(limit).read_to_end(&mut buf.inner)?;
         Ok(bytes_read)
     }
@@ -266,7 +267,7 @@ pub mod std_io {
     impl Write for TryVec<u8> {
         fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
             self.extend_from_slice(buf)
-                .map_err(|_| io::Error::new(io::ErrorKind::Other, "extend_from_slice failed"))?;
+                .map_err(|_| io::Error::from(io::ErrorKind::Other))?;
             Ok(buf.len())
         }
 
-- 
2.43.0


From a72bcfccc5fe4d9cf2431324317c991b118027e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 3/7] fix: report a refused allocation from Rc::try_new on
 unstable instead of aborting

---
 src/rc.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index 936a93e..9662ceb 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,6 +1,8 @@
 //! Implement a Fallible Rc
+#[cfg(not(feature = "unstable"))]
 use super::FallibleBox;
 use crate::TryReserveError;
+#[cfg(not(feature = "unstable"))]
 use alloc::boxed::Box;
 use alloc::rc::Rc;
 
@@ -23,8 +25,23 @@ pub trait FallibleRc<T> {
 #[allow(deprecated)]
 impl<T> FallibleRc<T> for Rc<T> {
     fn try_new(t: T) -> Result<Self, TryReserveError> {
-        let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
-        Ok(Rc::from(b))
+        #[cfg(not(feature = "unstable"))]
+        {
+            let b = <Box<T> as FallibleBox<T>>::try_new(t)?;
+            Ok(Rc::from(b))
+        }
+        #[cfg(feature = "unstable")]
+        {
+            use alloc::alloc::Layout;
+            use alloc::collections::TryReserveErrorKind;
+            Rc::try_new(t).map_err(|_e| {
+                TryReserveErrorKind::AllocError {
+                    layout: Layout::new::<T>(),
+                    non_exhaustive: (),
+                }
+                .into()
+            })
+        }
     }
 }
 
-- 
2.43.0


From 7618cbc70a5a9ddb19b44313246757fc5dea5be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 4/7] fix: do not panic on B-tree keys whose alignment exceeds
 the node header

---
 src/btree/node.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/btree/node.rs b/src/btree/node.rs
index bed459d..19816b7 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -567,8 +567,19 @@ impl<'a, K: 'a, V: 'a, Type> NodeRef<marker::Immut<'a>, K, V, Type> {
         // of the header!  So we do an alignment check first, that will be
         // evaluated at compile-time, and only do any run-time check in the rare case
         // that the alignment is very big.
-        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() && self.is_shared_root() {
-            &[]
+        if mem::align_of::<K>() > mem::align_of::<LeafNode<(), ()>>() {
+            if self.is_shared_root() {
+                &[]
+            } else {
+                // A real node: its keys lie after the padding that `K` needs, which is not
+                // part of the header.
+                unsafe {
+                    slice::from_raw_parts(
+                        MaybeUninit::slice_as_ptr(&self.as_leaf().keys),
+                        self.len(),
+                    )
+                }
+            }
         } else {
             // Thanks to the alignment check above, we know that `keys` will be
             // in-bounds of some allocation even if this is the shared root!
-- 
2.43.0


From 8957fe0d7f3875c7237f17e4fbccd398012ad6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 5/7] fix: leave a B-tree unchanged when an insertion that
 splits nodes is refused memory

---
 src/btree/map.rs  |  11 +++-
 src/btree/node.rs | 153 +++++++++++++++++++++++++++++++++++-----------
 2 files changed, 125 insertions(+), 39 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 3a69a66..2275b48 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -2368,6 +2368,10 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
     /// ```
 
     pub fn try_insert(self, value: V) -> Result<&'a mut V, TryReserveError> {
+        // All the memory first: past this point nothing fails, and the map is either
+        // unchanged or holds the new entry.
+        let mut spare = self.handle.spare_nodes()?;
+
         *self.length += 1;
 
         let out_ptr;
@@ -2376,7 +2380,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
         let mut ins_v;
         let mut ins_edge;
 
-        let mut cur_parent = match self.handle.insert(self.key, value)? {
+        let mut cur_parent = match self.handle.insert(self.key, value, &mut spare) {
             (Fit(handle), _) => return Ok(handle.into_kv_mut().1),
             (Split(left, k, v, right), ptr) => {
                 ins_k = k;
@@ -2389,7 +2393,7 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
 
         loop {
             match cur_parent {
-                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge)? {
+                Ok(parent) => match parent.insert(ins_k, ins_v, ins_edge, &mut spare) {
                     Fit(_) => return Ok(unsafe { &mut *out_ptr }),
                     Split(left, k, v, right) => {
                         ins_k = k;
@@ -2399,7 +2403,8 @@ impl<'a, K: Ord, V> VacantEntry<'a, K, V> {
                     }
                 },
                 Err(root) => {
-                    root.push_level()?.push(ins_k, ins_v, ins_edge);
+                    root.push_spare_level(&mut spare)
+                        .push(ins_k, ins_v, ins_edge);
                     return Ok(unsafe { &mut *out_ptr });
                 }
             }
diff --git a/src/btree/node.rs b/src/btree/node.rs
index 19816b7..9f73a6a 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -166,6 +166,58 @@ impl<K, V> InternalNode<K, V> {
     }
 }
 
+/// The nodes an insertion is going to need, allocated before it changes anything: once a node has
+/// been split there is no way back if the memory for the next one is refused.
+pub struct SpareNodes<K, V> {
+    leaf: Option<Box<LeafNode<K, V>>>,
+    /// A list linked through the `parent` field of the nodes.
+    internal: *const InternalNode<K, V>,
+}
+
+impl<K, V> SpareNodes<K, V> {
+    fn none() -> Self {
+        SpareNodes {
+            leaf: None,
+            internal: ptr::null(),
+        }
+    }
+
+    fn add_leaf(&mut self) -> Result<(), TryReserveError> {
+        self.leaf = Some(<Box<_> as FallibleBox<_>>::try_new(unsafe {
+            LeafNode::new()
+        })?);
+        Ok(())
+    }
+
+    fn add_internal(&mut self) -> Result<(), TryReserveError> {
+        let mut node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        node.data.parent = self.internal;
+        self.internal = Box::into_raw(node);
+        Ok(())
+    }
+
+    fn take_leaf(&mut self) -> Box<LeafNode<K, V>> {
+        self.leaf.take().expect("no spare leaf node")
+    }
+
+    fn take_internal(&mut self) -> Box<InternalNode<K, V>> {
+        assert!(!self.internal.is_null(), "no spare internal node");
+        unsafe {
+            let mut node = Box::from_raw(self.internal as *mut InternalNode<K, V>);
+            self.internal = mem::replace(&mut node.data.parent, ptr::null());
+            node
+        }
+    }
+}
+
+impl<K, V> Drop for SpareNodes<K, V> {
+    fn drop(&mut self) {
+        while !self.internal.is_null() {
+            drop(self.take_internal());
+        }
+    }
+}
+
 /// An owned pointer to a node. This basically is either `Box<LeafNode<K, V>>` or
 /// `Box<InternalNode<K, V>>`. However, it contains no information as to which of the two types
 /// of nodes is actually behind the box, and, partially due to this lack of information, has no
@@ -266,8 +318,18 @@ impl<K, V> Root<K, V> {
     pub fn push_level(
         &mut self,
     ) -> Result<NodeRef<marker::Mut<'_>, K, V, marker::Internal>, TryReserveError> {
+        let mut spare = SpareNodes::none();
+        spare.add_internal()?;
+        Ok(self.push_spare_level(&mut spare))
+    }
+
+    /// As `push_level`, with a node allocated beforehand.
+    pub fn push_spare_level(
+        &mut self,
+        spare: &mut SpareNodes<K, V>,
+    ) -> NodeRef<marker::Mut<'_>, K, V, marker::Internal> {
         debug_assert!(!self.is_shared_root());
-        let mut new_node = <Box<_> as FallibleBox<_>>::try_new(unsafe { InternalNode::new() })?;
+        let mut new_node = spare.take_internal();
         new_node.edges[0].write(unsafe { BoxedNode::from_ptr(self.node.as_ptr()) });
 
         self.node = BoxedNode::from_internal(new_node);
@@ -284,7 +346,7 @@ impl<K, V> Root<K, V> {
             ret.reborrow_mut().first_edge().correct_parent_link();
         }
 
-        Ok(ret)
+        ret
     }
 
     /// Removes the root node, using its first child as the new root. This cannot be called when
@@ -1020,6 +1082,27 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
         }
     }
 
+    /// Allocates all the nodes that inserting at this edge needs: one for every full node on
+    /// the way up, and a new root if all of them are full.
+    pub fn spare_nodes(&self) -> Result<SpareNodes<K, V>, TryReserveError> {
+        let mut spare = SpareNodes::none();
+        if self.node.len() < CAPACITY {
+            return Ok(spare);
+        }
+        spare.add_leaf()?;
+        let mut node = self.node.reborrow().forget_type();
+        while let Ok(parent) = node.ascend() {
+            let parent = parent.into_node();
+            if parent.len() < CAPACITY {
+                return Ok(spare);
+            }
+            spare.add_internal()?;
+            node = parent.forget_type();
+        }
+        spare.add_internal()?;
+        Ok(spare)
+    }
+
     /// Inserts a new key/value pair between the key/value pairs to the right and left of
     /// this edge. This method splits the node if there isn't enough room.
     ///
@@ -1028,13 +1111,14 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
         mut self,
         key: K,
         val: V,
-    ) -> Result<(InsertResult<'a, K, V, marker::Leaf>, *mut V), TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (InsertResult<'a, K, V, marker::Leaf>, *mut V) {
         if self.node.len() < CAPACITY {
             let ptr = self.insert_fit(key, val);
-            Ok((InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr))
+            (InsertResult::Fit(Handle::new_kv(self.node, self.idx)), ptr)
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare);
             let ptr = if self.idx <= B {
                 unsafe { Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val) }
             } else {
@@ -1046,7 +1130,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::Edge
                     .insert_fit(key, val)
                 }
             };
-            Ok((InsertResult::Split(left, k, v, right), ptr))
+            (InsertResult::Split(left, k, v, right), ptr)
         }
     }
 }
@@ -1107,16 +1191,17 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
         key: K,
         val: V,
         edge: Root<K, V>,
-    ) -> Result<InsertResult<'a, K, V, marker::Internal>, TryReserveError> {
+        spare: &mut SpareNodes<K, V>,
+    ) -> InsertResult<'a, K, V, marker::Internal> {
         // Necessary for correctness, but this is an internal module
         debug_assert!(edge.height == self.node.height - 1);
 
         if self.node.len() < CAPACITY {
             self.insert_fit(key, val, edge);
-            Ok(InsertResult::Fit(Handle::new_kv(self.node, self.idx)))
+            InsertResult::Fit(Handle::new_kv(self.node, self.idx))
         } else {
             let middle = Handle::new_kv(self.node, B);
-            let (mut left, k, v, mut right) = middle.split()?;
+            let (mut left, k, v, mut right) = middle.split(spare);
             if self.idx <= B {
                 unsafe {
                     Handle::new_edge(left.reborrow_mut(), self.idx).insert_fit(key, val, edge);
@@ -1130,7 +1215,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                     .insert_fit(key, val, edge);
                 }
             }
-            Ok(InsertResult::Split(left, k, v, right))
+            InsertResult::Split(left, k, v, right)
         }
     }
 }
@@ -1195,22 +1280,20 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
     /// - The node is truncated to only contain the key/value pairs to the right of
     ///   this handle.
     /// - The key and value pointed to by this handle and extracted.
-    /// - All the key/value pairs to the right of this handle are put into a newly
-    ///   allocated node.
+    /// - All the key/value pairs to the right of this handle are put into a spare
+    ///   node.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Leaf>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         debug_assert!(!self.node.is_shared_root());
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(LeafNode::new())?;
+            let mut new_node = spare.take_leaf();
 
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
@@ -1231,7 +1314,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
             (*self.node.as_leaf_mut()).len = self.idx as u16;
             new_node.len = new_len as u16;
 
-            Ok((
+            (
                 self.node,
                 k,
                 v,
@@ -1239,7 +1322,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Leaf>, marker::KV>
                     node: BoxedNode::from_leaf(new_node),
                     height: 0,
                 },
-            ))
+            )
         }
     }
 
@@ -1269,20 +1352,18 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
     ///   right of this handle.
     /// - The key and value pointed to by this handle and extracted.
     /// - All the edges and key/value pairs to the right of this handle are put into
-    ///   a newly allocated node.
+    ///   a spare node.
     pub fn split(
         mut self,
-    ) -> Result<
-        (
-            NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
-            K,
-            V,
-            Root<K, V>,
-        ),
-        TryReserveError,
-    > {
+        spare: &mut SpareNodes<K, V>,
+    ) -> (
+        NodeRef<marker::Mut<'a>, K, V, marker::Internal>,
+        K,
+        V,
+        Root<K, V>,
+    ) {
         unsafe {
-            let mut new_node = <Box<_> as FallibleBox<_>>::try_new(InternalNode::new())?;
+            let mut new_node = spare.take_internal();
 
             let k = ptr::read(self.node.keys().get_unchecked(self.idx));
             let v = ptr::read(self.node.vals().get_unchecked(self.idx));
@@ -1318,7 +1399,7 @@ impl<'a, K, V> Handle<NodeRef<marker::Mut<'a>, K, V, marker::Internal>, marker::
                 Handle::new_edge(new_root.as_mut().cast_unchecked(), i).correct_parent_link();
             }
 
-            Ok((self.node, k, v, new_root))
+            (self.node, k, v, new_root)
         }
     }
 
-- 
2.43.0


From 1ea251a798b05a8941dba2eca08f9b7b873f5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 6/7] fix: leave a B-tree unchanged when comparing keys panics
 in split_off

---
 src/btree/map.rs  | 52 ++++++++++++++++++++++++++---------------------
 src/btree/node.rs |  2 +-
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 2275b48..541dcf8 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -1097,34 +1097,40 @@ impl<K: Ord, V> BTreeMap<K, V> {
             right.root.push_level()?;
         }
 
+        // Entries are moved from the leaves up, when all comparisons (which may panic) are over.
+        fn move_right<'a, K: 'a, V: 'a, Q: ?Sized + Ord>(
+            left_node: NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal>,
+            mut right_node: NodeRef<marker::Mut<'a>, K, V, marker::LeafOrInternal>,
+            key: &Q,
+        ) where
+            K: Borrow<Q>,
         {
-            let mut left_node = self.root.as_mut();
-            let mut right_node = right.root.as_mut();
-
-            loop {
-                let mut split_edge = match search::search_node(left_node, key) {
-                    // key is going to the right tree
-                    Found(handle) => handle.left_edge(),
-                    GoDown(handle) => handle,
-                };
-
-                split_edge.move_suffix(&mut right_node);
-
-                match (split_edge.force(), right_node.force()) {
-                    (Internal(edge), Internal(node)) => {
-                        left_node = edge.descend();
-                        right_node = node.first_edge().descend();
-                    }
-                    (Leaf(_), Leaf(_)) => {
-                        break;
-                    }
-                    _ => {
-                        unreachable!();
-                    }
+            let mut split_edge = match search::search_node(left_node, key) {
+                // key is going to the right tree
+                Found(handle) => handle.left_edge(),
+                GoDown(handle) => handle,
+            };
+
+            match unsafe {
+                (
+                    split_edge.reborrow_mut().force(),
+                    right_node.reborrow_mut().force(),
+                )
+            } {
+                (Internal(edge), Internal(node)) => {
+                    move_right(edge.descend(), node.first_edge().descend(), key);
+                }
+                (Leaf(_), Leaf(_)) => {}
+                _ => {
+                    unreachable!();
                 }
             }
+
+            split_edge.move_suffix(&mut right_node);
         }
 
+        move_right(self.root.as_mut(), right.root.as_mut(), key);
+
         self.fix_right_border();
         right.fix_left_border();
 
diff --git a/src/btree/node.rs b/src/btree/node.rs
index 9f73a6a..b44dd77 100644
--- a/src/btree/node.rs
+++ b/src/btree/node.rs
@@ -592,7 +592,7 @@ impl<'a, K, V, Type> NodeRef<marker::Mut<'a>, K, V, Type> {
     /// of a reborrowed handle, out of bounds.
     // FIXME(@gereeter) consider adding yet another type parameter to `NodeRef` that restricts
     // the use of `ascend` and `into_root_mut` on reborrowed pointers, preventing this unsafety.
-    unsafe fn reborrow_mut(&mut self) -> NodeRef<marker::Mut<'_>, K, V, Type> {
+    pub unsafe fn reborrow_mut(&mut self) -> NodeRef<marker::Mut<'_>, K, V, Type> {
         NodeRef {
             height: self.height,
             node: self.node,
-- 
2.43.0


From 43a637db9e8b5fb2dd3fc592e39914edb5d1aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 7/7] fix: leave a valid B-tree behind when append is cut short
 by a panic

---
 src/btree/map.rs | 54 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/btree/map.rs b/src/btree/map.rs
index 541dcf8..4a7372c 100644
--- a/src/btree/map.rs
+++ b/src/btree/map.rs
@@ -847,9 +847,17 @@ impl<K: Ord, V> BTreeMap<K, V> {
             right: other_iter.peekable(),
         };
 
+        // The right edge has to be fixed even if the iteration is cut short by a panic.
+        struct FixRightEdge<'a, K: Ord, V>(&'a mut BTreeMap<K, V>);
+
+        impl<K: Ord, V> Drop for FixRightEdge<'_, K, V> {
+            fn drop(&mut self) {
+                self.0.fix_right_edge();
+            }
+        }
+
         // Second, we build a tree from the sorted sequence in linear time.
-        self.from_sorted_iter(iter);
-        self.fix_right_edge();
+        FixRightEdge(self).0.from_sorted_iter(iter);
     }
 
     /// Constructs a double-ended iterator over a sub-range of elements in the map.
@@ -990,36 +998,48 @@ impl<K: Ord, V> BTreeMap<K, V> {
                 cur_node.push(key, value);
             } else {
                 // No space left, go up and push there.
-                let mut open_node;
                 let mut test_node = cur_node.forget_type();
-                loop {
+                let open = loop {
                     match test_node.ascend() {
                         Ok(parent) => {
                             let parent = parent.into_node();
                             if parent.len() < node::CAPACITY {
                                 // Found a node with space left, push here.
-                                open_node = parent;
-                                break;
+                                break Ok(parent);
                             } else {
                                 // Go up again.
                                 test_node = parent.forget_type();
                             }
                         }
-                        Err(node) => {
-                            // We are at the top, create a new root node and push there.
-                            open_node = node.into_root_mut().push_level().expect("Out of Mem");
-                            break;
-                        }
+                        // We are at the top, a new root node is needed to push there.
+                        Err(node) => break Err(node),
                     }
-                }
+                };
 
-                // Push key-value pair and new right subtree.
-                let tree_height = open_node.height() - 1;
-                let mut right_tree = node::Root::new_leaf().expect("Out of Mem");
+                // Allocate everything before changing the tree.
+                let tree_height = match &open {
+                    Ok(parent) => parent.height() - 1,
+                    Err(top) => top.height(),
+                };
+                let mut right_tree = BTreeMap {
+                    root: node::Root::new_leaf().expect("Out of Mem"),
+                    length: 0,
+                };
                 for _ in 0..tree_height {
-                    right_tree.push_level().expect("Out of Mem");
+                    right_tree.root.push_level().expect("Out of Mem");
                 }
-                open_node.push(key, value, right_tree);
+                let mut open_node = match open {
+                    Ok(parent) => parent,
+                    Err(top) => top.into_root_mut().push_level().expect("Out of Mem"),
+                };
+
+                // Push key-value pair and new right subtree.
+                let right_root = unsafe {
+                    let root = ptr::read(&right_tree.root);
+                    mem::forget(right_tree);
+                    root
+                };
+                open_node.push(key, value, right_root);
 
                 // Go down to the right-most leaf again.
                 cur_node = last_leaf_edge(open_node.forget_type()).into_node();
-- 
2.43.0

