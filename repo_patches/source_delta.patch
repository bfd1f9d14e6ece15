From 203b7a64acdfc43800c35dd7248e48322bcc0dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 01/12] fix: sparse delete only removes the leaf of the given
 key

The leaf was looked up in storage under the raw key. That entry outlives the
leaf, so deleting a key twice removed whichever other leaf its path ended at;
and a key equal to the hash of a stored node deleted another leaf or panicked.
---
 src/sparse/merkle_tree.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index af69a93..bed90e2 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -106,13 +106,18 @@ where
             return Ok(());
         }
 
-        if let Some(primitive) = self.storage.get(key)? {
-            let primitive = primitive.into_owned();
-            let leaf_node: Node = primitive
-                .try_into()
-                .map_err(MerkleTreeError::DeserializeError)?;
-            let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) =
-                self.path_set(leaf_node.clone())?;
+        // Only the key determines the path; the leaf data is irrelevant here.
+        let leaf_node = Node::create_leaf(key, &[]);
+        let (path_nodes, side_nodes): (Vec<Node>, Vec<Node>) = self.path_set(leaf_node.clone())?;
+
+        // The key is present in this tree if and only if its path ends at its
+        // own leaf. If the path ends at a placeholder, or at the leaf of
+        // another key, there is nothing to delete.
+        let actual_leaf_node = &path_nodes[0];
+        if actual_leaf_node.is_leaf()
+            && !actual_leaf_node.is_placeholder()
+            && actual_leaf_node.leaf_key() == key
+        {
             self.delete_with_path_set(&leaf_node, path_nodes.as_slice(), side_nodes.as_slice())?;
         }
 
-- 
2.43.0


From 94a84410a5ee7f728d754bdcc98eafb42f2b22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 02/12] fix: do not store sparse leaves under their raw key

Nodes are stored under their hash. Storing the leaf under its raw key as well
overwrote the node whose hash equals that key, corrupting the tree. Nothing
reads the entry any more.
---
 src/sparse/merkle_tree.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index bed90e2..4b87476 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -86,8 +86,6 @@ where
         let leaf_node = Node::create_leaf(key, data);
         self.storage
             .insert(&leaf_node.hash(), &leaf_node.as_ref().into())?;
-        self.storage
-            .insert(leaf_node.leaf_key(), &leaf_node.as_ref().into())?;
 
         if self.root_node().is_placeholder() {
             self.set_root_node(leaf_node);
-- 
2.43.0


From d316cc55d85f24ff7de4ea01887d2a02300e2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 03/12] fix: load an empty sparse tree from its root

The root of an empty tree is never stored, so load() returned LoadError for a
root the tree itself had reported.
---
 src/sparse/merkle_tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index 4b87476..e489db5 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -57,6 +57,12 @@ where
         storage: StorageType,
         root: &Bytes32,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        if root == zero_sum() {
+            // The zero root signifies an empty tree, which has no stored root
+            // node.
+            return Ok(Self::new(storage));
+        }
+
         let primitive = storage
             .get(root)?
             .ok_or_else(|| MerkleTreeError::LoadError(hex::encode(root)))?
-- 
2.43.0


From 94283d2fc0594ce2b49a2f988a9346e71d55997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 04/12] fix: sparse delete removes stale nodes only after the
 new root is in place

A storage error part way through a delete left the tree at its old root with
the nodes of that root already removed.
---
 src/sparse/merkle_tree.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sparse/merkle_tree.rs b/src/sparse/merkle_tree.rs
index e489db5..abf01a7 100644
--- a/src/sparse/merkle_tree.rs
+++ b/src/sparse/merkle_tree.rs
@@ -239,10 +239,6 @@ where
         path_nodes: &[Node],
         side_nodes: &[Node],
     ) -> Result<(), StorageError> {
-        for node in path_nodes {
-            self.storage.remove(&node.hash())?;
-        }
-
         let path = requested_leaf_node.leaf_key();
         let mut side_nodes_iter = side_nodes.iter();
 
@@ -295,6 +291,12 @@ where
 
         self.set_root_node(current_node);
 
+        // Remove the stale path nodes last, so that a storage error never
+        // leaves the tree with a root whose nodes are already gone.
+        for node in path_nodes {
+            self.storage.remove(&node.hash())?;
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 7006bf5728d74bea70fcfeb661a29304007dba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 05/12] fix: binary prove rejects proof index u64::MAX

The range check overflowed: a panic with overflow checks on, and otherwise an
index that passed the check.
---
 src/binary/merkle_tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 2e2867d..f8c250c 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -82,7 +82,7 @@ where
         &self,
         proof_index: u64,
     ) -> Result<(Bytes32, ProofSet), MerkleTreeError<StorageError>> {
-        if proof_index + 1 > self.leaves_count {
+        if proof_index >= self.leaves_count {
             return Err(MerkleTreeError::InvalidProofIndex(proof_index));
         }
 
-- 
2.43.0


From af623cb86a1bcc505142a7a69dbcc07e871e2aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 06/12] fix: binary push leaves the tree unchanged when storage
 fails

A storage error while joining subtrees lost the list of subtrees: root() then
reported an empty tree, prove() panicked, and a retried push built a tree of
one leaf.
---
 src/binary/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index f8c250c..ca4d6b4 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -295,10 +295,15 @@ where
     pub fn push(&mut self, data: &[u8]) -> Result<(), MerkleTreeError<StorageError>> {
         let node = Node::create_leaf(self.leaves_count, data);
         self.storage.insert(&node.key(), &node.as_ref().into())?;
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // The leaf was not added; restore the subtrees joined so far.
+            self.head = previous_head;
+            return Err(err.into());
+        }
 
         self.leaves_count += 1;
 
-- 
2.43.0


From d50a6d356214ed7dc96a8fa0411e977da627713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 07/12] fix: sum push leaves the tree unchanged when storage
 fails

A storage error while joining subtrees lost the list of subtrees, and with it
every fee pushed so far.
---
 src/sum/merkle_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sum/merkle_tree.rs b/src/sum/merkle_tree.rs
index a3cc9d4..72347c7 100644
--- a/src/sum/merkle_tree.rs
+++ b/src/sum/merkle_tree.rs
@@ -72,10 +72,15 @@ where
         let node = Node::create_leaf(fee, data);
         self.storage.insert(node.hash(), &node)?;
 
+        let previous_head = self.head.clone();
         let next = self.head.take();
         let head = Box::new(Subtree::<Node>::new(node, next));
         self.head = Some(head);
-        self.join_all_subtrees()?;
+        if let Err(err) = self.join_all_subtrees() {
+            // The leaf was not added; restore the subtrees joined so far.
+            self.head = previous_head;
+            return Err(err);
+        }
 
         Ok(())
     }
-- 
2.43.0


From db2b1afc992759ba104a7dd1fdbb468f2e6490bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 08/12] Verification hook: export the sum tree's node type
 under cfg(fuel_merkle_verif)

---
 src/sum.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sum.rs b/src/sum.rs
index 4e853ff..598d165 100644
--- a/src/sum.rs
+++ b/src/sum.rs
@@ -6,3 +6,9 @@ pub(crate) use hash::{empty_sum, leaf_sum, node_sum};
 pub use merkle_tree::MerkleTree;
 pub use merkle_tree::MerkleTreeError;
 pub(crate) use node::Node;
+
+// Verification hook: implementing storage for the sum tree outside of this
+// crate requires naming its node type.
+#[allow(unexpected_cfgs)]
+#[cfg(fuel_merkle_verif)]
+pub use node::Node as VerifNode;
-- 
2.43.0


From 17d770c4d152c84fb031855aea3a90dab78c1b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:43 +0000
Subject: [PATCH 09/12] Verification hook: export the child result types under
 cfg(fuel_merkle_verif)

---
 src/common.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common.rs b/src/common.rs
index 8871ce6..2b4afd4 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -18,6 +18,8 @@ pub use subtree::Subtree;
 
 pub(crate) use msb::{Bit, Msb};
 pub(crate) use node::{ChildError, ChildResult};
+#[cfg(fuel_merkle_verif)]
+pub use node::{ChildError as VerifChildError, ChildResult as VerifChildResult};
 pub(crate) use position_path::PositionPath;
 pub(crate) use prefix::{Prefix, PrefixError};
 
-- 
2.43.0


From 0338129d7635e6d28cf94407e53003083f0c665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 10/12] fix: binary prove names the missing leaf's key in its
 load error

---
 src/binary/merkle_tree.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index ca4d6b4..5a7ae60 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -90,10 +90,11 @@ where
 
         let root_position = self.root_position();
         let leaf_position = Position::from_leaf_index(proof_index);
+        let leaf_key = leaf_position.in_order_index();
         let primitive = self
             .storage
-            .get(&leaf_position.in_order_index())?
-            .ok_or(MerkleTreeError::LoadError(proof_index))?
+            .get(&leaf_key)?
+            .ok_or(MerkleTreeError::LoadError(leaf_key))?
             .into_owned();
         let leaf_node = Node::from(primitive);
         proof_set.push(*leaf_node.hash());
-- 
2.43.0


From d2bb6bd2d28445dc2bb97f59bd51ea3ce91de831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 11/12] fix: position arithmetic over the whole u64 range

Sibling, parent and child computed the resulting index as i64, which
overflowed (panicking where overflow is checked) for positions around
in-order index 2^63 although the results fit a u64.
---
 src/common/position.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/common/position.rs b/src/common/position.rs
index 7b9ba75..aa00dcf 100644
--- a/src/common/position.rs
+++ b/src/common/position.rs
@@ -111,16 +111,14 @@ impl Position {
     /// A position shares the same parent and height as its sibling.
     pub fn sibling(self) -> Self {
         let shift = 1 << (self.height() + 1);
-        let index = self.in_order_index() as i64 + shift * self.direction();
-        Self::from_in_order_index(index as u64)
+        Self::from_in_order_index(self.shifted(shift, self.direction()))
     }
 
     /// The parent position.
     /// The parent position has a height less 1 relative to this position.
     pub fn parent(self) -> Self {
         let shift = 1 << self.height();
-        let index = self.in_order_index() as i64 + shift * self.direction();
-        Self::from_in_order_index(index as u64)
+        Self::from_in_order_index(self.shifted(shift, self.direction()))
     }
 
     /// The uncle position.
@@ -209,8 +207,17 @@ impl Position {
     fn child(self, direction: i64) -> Self {
         assert!(self.is_node());
         let shift = 1 << (self.height() - 1);
-        let index = self.in_order_index() as i64 + shift * direction;
-        Self::from_in_order_index(index as u64)
+        Self::from_in_order_index(self.shifted(shift, direction))
+    }
+
+    /// The in-order index that lies `shift` to the left (direction `-1`) or to
+    /// the right (direction `+1`) of this position's.
+    fn shifted(self, shift: u64, direction: i64) -> u64 {
+        if direction < 0 {
+            self.in_order_index() - shift
+        } else {
+            self.in_order_index() + shift
+        }
     }
 
     /// Orientation of the position index relative to its parent.
-- 
2.43.0


From f25e9aad7a196b0ebac5c2bf64f2081917afa248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 12/12] fix: binary load with an impossible leaf count returns
 a load error

With 2^63 leaves or more, the position arithmetic overflowed: load
panicked or, where overflow is not checked, loading u64::MAX leaves
succeeded with an empty tree.
---
 src/binary/merkle_tree.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/binary/merkle_tree.rs b/src/binary/merkle_tree.rs
index 5a7ae60..fbe9166 100644
--- a/src/binary/merkle_tree.rs
+++ b/src/binary/merkle_tree.rs
@@ -9,6 +9,10 @@ use crate::{
 use alloc::{boxed::Box, vec::Vec};
 use core::marker::PhantomData;
 
+/// The greatest number of leaves of a tree, `2^63 - 1`. The same number is the
+/// in-order index of the root of the subtree over the first `2^63` leaves.
+const MAX_LEAVES_COUNT: u64 = u64::MAX >> 1;
+
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "std", derive(thiserror::Error))]
 pub enum MerkleTreeError<StorageError> {
@@ -57,6 +61,12 @@ where
         storage: StorageType,
         leaves_count: u64,
     ) -> Result<Self, MerkleTreeError<StorageError>> {
+        // With more leaves, the leftmost peak would be the root of the subtree
+        // over the first 2^63 leaves, which no tree can have stored.
+        if leaves_count > MAX_LEAVES_COUNT {
+            return Err(MerkleTreeError::LoadError(MAX_LEAVES_COUNT));
+        }
+
         let mut tree = Self {
             storage,
             head: None,
-- 
2.43.0

