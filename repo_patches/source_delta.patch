From bfdc80c66be1c94403a5c19692824e6047f46dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 01/21] hook: expose ExclusionProof under cfg(patriecia_mc) for
 the model checker

---
 jmt/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jmt/src/lib.rs b/jmt/src/lib.rs
index a864c12..516f0a2 100644
--- a/jmt/src/lib.rs
+++ b/jmt/src/lib.rs
@@ -99,6 +99,9 @@ pub use iterator::JellyfishMerkleIterator;
 pub use sha2::Sha256;
 #[cfg(feature = "ics23")]
 pub use tree::ics23_impl::ics23_spec;
+// Verification hook: lets an out-of-tree checker name the type `get_with_exclusion_proof` returns.
+#[cfg(patriecia_mc)]
+pub use tree::ExclusionProof;
 pub use tree::{H256Jmt, JellyfishMerkleTree, Sha256Jmt};
 use types::nibble::ROOT_NIBBLE_HEIGHT;
 pub use types::proof;
-- 
2.43.0


From a24714f672c935350688054a3604f2904ed951d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:26 +0000
Subject: [PATCH 02/21] fix: create the null root at the version being frozen,
 not its predecessor

---
 jmt/src/tree_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index b5bb97b..134b73d 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -264,7 +264,10 @@ where
             // If the root node does not exist, then we need to set it to the null node and record
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
+            // key-value mapping in the tree. The null node belongs to the version being frozen:
+            // without a predecessor, the cache still points at the version before it.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From e3a7d3ef0165e24ab714d163282c8a62dc8f773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 03/21] fix: record the root superseded by a no-op version as
 stale

---
 jmt/src/tree_cache.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jmt/src/tree_cache.rs b/jmt/src/tree_cache.rs
index 134b73d..6ace842 100644
--- a/jmt/src/tree_cache.rs
+++ b/jmt/src/tree_cache.rs
@@ -288,8 +288,11 @@ where
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
+            // The copy supersedes the previous root node like any other new root would.
             let root_node = self.get_node(&self.root_node_key)?;
+            self.delete_node(&root_node_key, root_node.is_leaf());
             root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key, root_node)?;
         }
 
-- 
2.43.0


From 76242651ae979379239df02affd4b794fcf2b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:20 +0000
Subject: [PATCH 04/21] fix: record a null root superseded by an insertion as
 stale

---
 jmt/src/tree.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 728f87b..217bd0e 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -282,9 +282,8 @@ where
                     );
                 }
 
-                if node_key.version() == version {
-                    tree_cache.delete_node(&node_key, false /* is_leaf */);
-                }
+                // The null node is replaced by the new root, whichever version it belongs to.
+                tree_cache.delete_node(&node_key, false /* is_leaf */);
                 self.batch_create_subtree(
                     NodeKey::new_empty_path(version),
                     version,
@@ -580,8 +579,9 @@ where
                         node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if node_key.version() == version && node_already_exists {
+                // Delete the old null node if it is at the same version, or if it is stored for an
+                // older version and about to be replaced
+                if node_already_exists && (node_key.version() == version || value.is_some()) {
                     tree_cache.delete_node(&node_key, false /* is_leaf */);
                 }
                 if let Some(value) = value {
-- 
2.43.0


From c4b742d20c926a7855ececed0607626d6bb53a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:59 +0000
Subject: [PATCH 05/21] fix: look up neighbour subtrees of exclusion proofs at
 their own version

---
 jmt/src/tree.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jmt/src/tree.rs b/jmt/src/tree.rs
index 217bd0e..da0faf1 100644
--- a/jmt/src/tree.rs
+++ b/jmt/src/tree.rs
@@ -923,25 +923,24 @@ where
             node: &InternalNode,
             child_index: Nibble,
             extreme: Extreme,
-        ) -> Option<Nibble> {
+        ) -> Option<(Nibble, Version)> {
             match extreme {
                 // Rightmost left neighbor
                 Extreme::Left => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble < &child_index)
-                    .max_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .max_by_key(|(nibble, _)| *nibble),
                 // Leftmost right neighbor
                 Extreme::Right => node
                     .children_unsorted()
                     .filter(|(nibble, _)| nibble > &child_index)
-                    .min_by_key(|(nibble, _)| *nibble)
-                    .map(|p| p.0),
+                    .min_by_key(|(nibble, _)| *nibble),
             }
+            .map(|(nibble, child)| (nibble, child.version))
         }
 
         let mut parents = parents;
-        let mut neighbor: Option<Nibble> = None;
+        let mut neighbor: Option<(Nibble, Version)> = None;
         let mut path = to;
 
         while neighbor.is_none() {
@@ -956,13 +955,16 @@ where
                 continue;
             }
         }
-        path.push(neighbor.unwrap());
+        // the neighboring subtree is stored at the version it was last changed at, which may be
+        // older than the queried one
+        let (neighbor_nibble, neighbor_version) = neighbor.unwrap();
+        path.push(neighbor_nibble);
 
         // nibble path will represent the left nibble path. this is currently at
         // the parent of the leaf for `key`
         Ok(Some(self.get_extreme_key_hash(
             version,
-            NodeKey::new(version, path.clone()),
+            NodeKey::new(neighbor_version, path.clone()),
             path.num_nibbles(),
             extreme.opposite(),
         )?))
-- 
2.43.0


From 77f2f8bb0da0e98b0ac45295b478adf37596bf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:09 +0000
Subject: [PATCH 06/21] fix: reject range proofs with more than 256 siblings
 instead of overflowing

---
 jmt/src/types/proof/definition.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jmt/src/types/proof/definition.rs b/jmt/src/types/proof/definition.rs
index 6f90e12..85ae1ed 100644
--- a/jmt/src/types/proof/definition.rs
+++ b/jmt/src/types/proof/definition.rs
@@ -269,6 +269,12 @@ impl SparseMerkleRangeProof {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle Tree range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From 70fd684e5b7b290e50c3aa926090a7e93c4f275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 07/21] fix: forget a rejected restore chunk entirely

---
 jmt/src/restore.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 67b024a..62a64ea 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -312,6 +312,28 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         &mut self,
         chunk: Vec<(KeyHash, OwnedValue)>,
         proof: SparseMerkleRangeProof,
+    ) -> Result<()> {
+        let partial_nodes = self.partial_nodes.clone();
+        let previous_leaf = self.previous_leaf.clone();
+        let num_keys_received = self.num_keys_received;
+
+        let result = self.verify_and_write_chunk(chunk, proof);
+        self.frozen_nodes.clear();
+        if result.is_err() {
+            // Forget everything about the failed chunk, so that it neither affects the chunks that
+            // follow nor what is eventually written.
+            self.partial_nodes = partial_nodes;
+            self.previous_leaf = previous_leaf;
+            self.num_keys_received = num_keys_received;
+        }
+
+        result
+    }
+
+    fn verify_and_write_chunk(
+        &mut self,
+        chunk: Vec<(KeyHash, OwnedValue)>,
+        proof: SparseMerkleRangeProof,
     ) -> Result<()> {
         ensure!(!chunk.is_empty(), "Should not add empty chunks.");
 
@@ -334,10 +356,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         self.verify(proof)?;
 
         // Write the frozen nodes to storage.
-        self.store.write_node_batch(&self.frozen_nodes)?;
-        self.frozen_nodes.clear();
-
-        Ok(())
+        self.store.write_node_batch(&self.frozen_nodes)
     }
 
     /// Restores one account.
-- 
2.43.0


From a68ae1f057f8b118278d6f86dd1d875b6c26cf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:59 +0000
Subject: [PATCH 08/21] fix: check the restored root before finishing a restore

---
 jmt/src/restore.rs | 85 ++++++++++++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 37 deletions(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 62a64ea..8c81431 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -90,7 +90,7 @@ impl InternalInfo {
         mut self,
         version: Version,
         leaf_count_migration: bool,
-    ) -> (NodeKey, InternalNode) {
+    ) -> Result<(NodeKey, InternalNode)> {
         let mut children = Children::new();
 
         // Calling `into_iter` on an array is equivalent to calling `iter`:
@@ -101,10 +101,10 @@ impl InternalInfo {
             }
         }
 
-        (
+        Ok((
             self.node_key,
-            InternalNode::new_migration(children, leaf_count_migration),
-        )
+            InternalNode::new_impl(children, leaf_count_migration)?,
+        ))
     }
 }
 
@@ -347,7 +347,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             let value_hash = ValueHash::with::<H>(value.as_slice());
             self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
+            self.add_one(key, value_hash)?;
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -360,7 +360,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
@@ -387,14 +387,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                             new_key,
                             value_hash,
                             nibbles,
-                        );
+                        )?;
                         break;
                     }
                 }
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -410,6 +410,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
@@ -422,7 +424,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         new_key: KeyHash,
         value_hash: ValueHash,
         mut remaining_nibbles: NibbleIterator,
-    ) {
+    ) -> Result<()> {
         let num_existing_partial_nodes = self.partial_nodes.len();
 
         // The node at this position becomes an internal node. Since we may insert more nodes at
@@ -475,7 +477,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze(self.partial_nodes.len())?;
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -492,12 +494,14 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                     node: LeafNode::new(new_key, value_hash),
                 },
             );
+
+        Ok(())
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
         self.freeze_previous_leaf();
-        self.freeze_internal_nodes(num_remaining_partial_nodes);
+        self.freeze_internal_nodes(num_remaining_partial_nodes)
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -532,11 +536,11 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
     /// Freeze extra internal nodes. Only `num_remaining_nodes` partial internal nodes will be kept
     /// and the ones on the lower level will be frozen.
-    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) {
+    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) -> Result<()> {
         while self.partial_nodes.len() > num_remaining_nodes {
             let last_node = self.partial_nodes.pop().expect("This node must exist.");
             let (node_key, internal_node) =
-                last_node.into_internal_node(self.version, self.leaf_count_migration);
+                last_node.into_internal_node(self.version, self.leaf_count_migration)?;
             // Keep the hash of this node before moving it into `frozen_nodes`, so we can update
             // its parent later.
             let node_hash = internal_node.hash();
@@ -569,6 +573,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Verifies that all accounts that have been added so far (from the leftmost one to
@@ -687,34 +693,39 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Finishes the restoration process. This tells the code that there is no more account,
-    /// otherwise we can not freeze the rightmost leaf and its ancestors.
+    /// otherwise we can not freeze the rightmost leaf and its ancestors. If what has been restored
+    /// is not the whole expected tree, an error is returned and nothing is written.
     fn finish_impl(mut self) -> Result<()> {
-        // Deal with the special case when the entire tree has a single leaf.
-        if self.partial_nodes.len() == 1 {
-            let mut num_children = 0;
-            let mut leaf = None;
-            for i in 0..16 {
-                if let Some(ref child_info) = self.partial_nodes[0].children[i] {
-                    num_children += 1;
-                    if let ChildInfo::Leaf { node } = child_info {
-                        leaf = Some(node.clone());
-                    }
-                }
-            }
+        let root_node_key = NodeKey::new_empty_path(self.version);
+        let root_node = self.freeze_root()?;
+        ensure!(
+            RootHash(root_node.hash()) == self.expected_root_hash,
+            "The restored tree does not have the expected root hash.",
+        );
 
-            if num_children == 1 {
-                if let Some(node) = leaf {
-                    let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
-                    self.frozen_nodes.insert_node(node_key, node.into());
-                    self.store.write_node_batch(&self.frozen_nodes)?;
-                    return Ok(());
-                }
+        self.frozen_nodes.insert_node(root_node_key, root_node);
+        self.store.write_node_batch(&self.frozen_nodes)
+    }
+
+    /// Freezes everything below the root and returns the root node.
+    fn freeze_root(&mut self) -> Result<Node> {
+        // Deal with the special cases when the entire tree is empty or has a single leaf.
+        if self.partial_nodes.len() == 1 {
+            let mut children = self.partial_nodes[0].children.iter().flatten();
+            match (children.next(), children.next()) {
+                (None, _) => return Ok(Node::Null),
+                (Some(ChildInfo::Leaf { node }), None) => return Ok(node.clone().into()),
+                _ => (),
             }
         }
 
-        self.freeze(0);
-        self.store.write_node_batch(&self.frozen_nodes)
+        self.freeze(1)?;
+        let (_, root_node) = self
+            .partial_nodes
+            .pop()
+            .expect("The root must exist.")
+            .into_internal_node(self.version, self.leaf_count_migration)?;
+        Ok(root_node.into())
     }
 }
 
-- 
2.43.0


From cc84c5dc9b70504d939056664fa01fccd25f0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 09/21] fix: report a completed restore instead of panicking
 when it is reopened

---
 jmt/src/restore.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 8c81431..4f1c6e4 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -249,6 +249,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The restoration has already completed.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
-- 
2.43.0


From 5a62b515d16d6eb7ee6979ab4edb79439fa6daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 10/21] fix: refuse a restore chunk that reaches into an
 already restored subtree

---
 jmt/src/restore.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jmt/src/restore.rs b/jmt/src/restore.rs
index 4f1c6e4..2d3d495 100644
--- a/jmt/src/restore.rs
+++ b/jmt/src/restore.rs
@@ -371,7 +371,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            ensure!(
+                i < self.partial_nodes.len(),
+                "The key belongs to a subtree that has already been restored.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
-- 
2.43.0


From 6c032b4ee63538ba3daee2e0a170eeceba4e7e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:25 +0000
Subject: [PATCH 11/21] fix: refuse to overwrite a stored node before
 overwriting it

---
 jmt/src/mock.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jmt/src/mock.rs b/jmt/src/mock.rs
index aefa2c9..9655824 100644
--- a/jmt/src/mock.rs
+++ b/jmt/src/mock.rs
@@ -133,10 +133,11 @@ impl TreeWriter for MockTreeStore {
     fn write_node_batch(&self, node_batch: &NodeBatch) -> Result<()> {
         let mut locked = self.data.write();
         for (node_key, node) in node_batch.nodes() {
-            let replaced = locked.nodes.insert(node_key.clone(), node.clone());
             if !self.allow_overwrite {
-                assert_eq!(replaced, None);
+                // Checked first: a refused write must leave the stored node alone.
+                assert_eq!(locked.nodes.get(node_key), None);
             }
+            locked.nodes.insert(node_key.clone(), node.clone());
         }
         for ((version, key_hash), value) in node_batch.values() {
             put_value(
-- 
2.43.0


From d9f0e6ba909fd67b67de389a6df84673c22ce4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 12/21] fix: iterate tries holding the empty key instead of
 panicking

---
 pmt/src/nibbles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pmt/src/nibbles.rs b/pmt/src/nibbles.rs
index 20dff17..f7d966b 100644
--- a/pmt/src/nibbles.rs
+++ b/pmt/src/nibbles.rs
@@ -56,7 +56,7 @@ impl Nibbles {
     }
 
     pub fn is_leaf(&self) -> bool {
-        self.hex_data[self.hex_data.len() - 1] == 16
+        self.hex_data.last() == Some(&16)
     }
 
     pub fn encode_compact(&self) -> Vec<u8> {
-- 
2.43.0


From fa52990d8cecdac53b2b0725621125d8b9e82485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 13/21] fix: collapse a branch whose value is removed, and
 report an absent value as absent

---
 pmt/src/inner.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 9ddb1c4..ce12c1f 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -528,19 +528,19 @@ where
                 let borrow_branch = branch.borrow_mut();
 
                 if partial.at(0) == 0x10 {
-                    borrow_branch.value = None;
-                    return Ok((Node::Branch(branch.clone()), true));
-                }
+                    let deleted = borrow_branch.value.take().is_some();
+                    Ok((Node::Branch(branch.clone()), deleted))
+                } else {
+                    let index = partial.at(0);
+                    let child = &mut borrow_branch.children[index];
 
-                let index = partial.at(0);
-                let child = &mut borrow_branch.children[index];
+                    let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
+                    if deleted {
+                        *borrow_branch.children[index] = new_child;
+                    }
 
-                let (new_child, deleted) = self.delete_at(child, path, path_index + 1)?;
-                if deleted {
-                    *borrow_branch.children[index] = new_child;
+                    Ok((Node::Branch(branch.clone()), deleted))
                 }
-
-                Ok((Node::Branch(branch.clone()), deleted))
             }
             Node::Extension(ext) => {
                 let borrow_ext = ext.borrow_mut();
-- 
2.43.0


From cce20de1b376dbaad13a94361422f94a21d678bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 14/21] fix: prove keys of an empty trie and of a trie opened
 at a root

---
 pmt/src/inner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index ce12c1f..0a7e9d4 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -239,7 +239,8 @@ where
 
         let mut path = result?;
         match self.root {
-            Node::Empty => {}
+            // already on the path, recovered from the database
+            Node::Hash(_) => {}
             _ => path.push(self.root.clone()),
         }
 
-- 
2.43.0


From 9ab464db3d92888e8e7a3d59b48cbdc2ca839e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:33 +0000
Subject: [PATCH 15/21] fix: keep a small root that is superseded and committed
 again

---
 pmt/src/inner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 0a7e9d4..0cf2b35 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -283,6 +283,7 @@ where
             EncodedNode::Inline(encoded) => {
                 let hash = keccak(&encoded);
                 self.cache.insert(hash.as_bytes().to_vec(), encoded);
+                self.gen_keys.insert(hash.as_bytes().to_vec());
                 hash
             }
         };
-- 
2.43.0


From 77f4a4b5320c8f76ec180536a6616b06249a1b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:30 +0000
Subject: [PATCH 16/21] fix: discard only the nodes that a successful change
 supersedes

---
 pmt/src/inner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 0cf2b35..e1f6854 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -1,4 +1,5 @@
 use std::fmt::{self, Formatter};
+use std::mem;
 use std::sync::Arc;
 /// Adapted from https://github.com/carver/eth-trie.rs which is a fork of https://github.com/citahub/cita-trie
 /// Beware there's a significant amount of TODOs scattered around the file,
@@ -154,7 +155,9 @@ where
 
         let mut root = self.root.clone();
         let path = &Nibbles::from_raw(key, true);
+        let passing_keys = mem::take(&mut self.passing_keys);
         let result = self.insert_at(&mut root, path, 0, value.to_vec());
+        let passed = mem::replace(&mut self.passing_keys, passing_keys);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -172,6 +175,7 @@ where
         }
 
         self.root = result?;
+        self.passing_keys.extend(passed);
 
         Ok(())
     }
@@ -180,7 +184,9 @@ where
     fn remove(&mut self, key: Key) -> Result<bool> {
         let path = &Nibbles::from_raw(key, true);
 
+        let passing_keys = mem::take(&mut self.passing_keys);
         let result = self.delete_at(&mut self.root.clone(), path, 0);
+        let passed = mem::replace(&mut self.passing_keys, passing_keys);
 
         if let Err(TrieError::MissingTrieNode {
             node_hash,
@@ -199,6 +205,10 @@ where
 
         let (n, removed) = result?;
         self.root = n;
+        // nodes passed on the way to an absent key are still in use
+        if removed {
+            self.passing_keys.extend(passed);
+        }
 
         Ok(removed)
     }
-- 
2.43.0


From e8d099d2b83ce74515f5b6b3b49f019438d467c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:50 +0000
Subject: [PATCH 17/21] fix: reject nodes with a malformed path instead of
 panicking

---
 pmt/src/inner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index e1f6854..1ba7965 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -795,6 +795,12 @@ where
             Prototype::Data(0) => Ok(Node::Empty),
             Prototype::List(2) => {
                 let key = r.at(0)?.data()?;
+                // the flag nibble of a compact path, and at least one nibble or a terminator
+                if key.first().map_or(true, |flag| flag >> 4 > 0x3) || key == [0x00] {
+                    return Err(TrieError::InvalidData(
+                        "node has an invalid path".to_string(),
+                    ));
+                }
                 let key = Nibbles::from_compact(key);
 
                 if key.is_leaf() {
-- 
2.43.0


From 88ca1feef44aec03f0170ae733461a1a97cc9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:36 +0000
Subject: [PATCH 18/21] fix: refuse oversized embedded nodes, whose nesting
 overflowed the stack

---
 pmt/src/inner.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 1ba7965..743780d 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -806,7 +806,7 @@ where
                 if key.is_leaf() {
                     Ok(Node::from_leaf(key, r.at(1)?.data()?.to_vec()))
                 } else {
-                    let n = self.decode_node(r.at(1)?.as_raw())?;
+                    let n = self.decode_child(&r.at(1)?)?;
 
                     Ok(Node::from_extension(key, n))
                 }
@@ -816,7 +816,7 @@ where
                 #[allow(clippy::needless_range_loop)]
                 for i in 0..nodes.len() {
                     let rlp_data = r.at(i)?;
-                    let n = self.decode_node(rlp_data.as_raw())?;
+                    let n = self.decode_child(&rlp_data)?;
                     *nodes[i] = n;
                 }
 
@@ -843,6 +843,18 @@ where
         }
     }
 
+    /// Decodes a child of a node. Nodes of `HASHED_LENGTH` or more are never
+    /// embedded, which bounds how deep embedded nodes can nest.
+    fn decode_child(&self, child: &Rlp) -> Result<Node> {
+        if child.is_list() && child.as_raw().len() >= HASHED_LENGTH {
+            return Err(TrieError::InvalidData(
+                "embedded node is too large".to_string(),
+            ));
+        }
+
+        self.decode_node(child.as_raw())
+    }
+
     pub(crate) fn recover_from_db(&self, key: H256) -> Result<Option<Node>> {
         let node = match self
             .db
-- 
2.43.0


From 6c405cff498eb0ade9f0c242ded131efea7564a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:22 +0000
Subject: [PATCH 19/21] fix: report a missing root after a commit as an error
 instead of panicking

---
 pmt/src/inner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index 743780d..d2e1c3d 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -326,7 +326,12 @@ where
         self.passing_keys.clear();
         self.root = self
             .recover_from_db(root_hash)?
-            .expect("The root that was just created is missing");
+            .ok_or(TrieError::MissingTrieNode {
+                node_hash: root_hash,
+                traversed: None,
+                root_hash: Some(root_hash),
+                err_key: None,
+            })?;
 
         Ok(root_hash)
     }
-- 
2.43.0


From 95790caab1e4b73c6039ed1b4af23d0383e45813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:36 +0000
Subject: [PATCH 20/21] fix: values() reports database errors instead of
 returning part of the entries

---
 pmt/src/inner.rs         |  2 +-
 pmt/src/trie_iterator.rs | 53 ++++++++++++++++++++++++++++++----------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/pmt/src/inner.rs b/pmt/src/inner.rs
index d2e1c3d..d9629af 100644
--- a/pmt/src/inner.rs
+++ b/pmt/src/inner.rs
@@ -97,7 +97,7 @@ where
 
     /// Returns all values stored on the trie.
     pub fn values(&self) -> Result<Vec<(Vec<u8>, Vec<u8>)>> {
-        Ok(self.iter().collect())
+        self.iter().try_collect()
     }
 
     pub fn is_empty(&self) -> bool {
diff --git a/pmt/src/trie_iterator.rs b/pmt/src/trie_iterator.rs
index 7dd6445..f9dfd0d 100644
--- a/pmt/src/trie_iterator.rs
+++ b/pmt/src/trie_iterator.rs
@@ -2,7 +2,10 @@
 /// Beware there's a significant amount of TODOs scattered around the file,
 /// these will be addressed in due time.
 ///
-use crate::{db::Database, inner::InnerTrie, nibbles::Nibbles, node::Node};
+use crate::{
+    db::Database, error::TrieError, inner::InnerTrie, nibbles::Nibbles, node::Node,
+    result::Result,
+};
 
 #[derive(Clone, Debug)]
 enum TraceStatus {
@@ -49,6 +52,9 @@ where
     trie: &'a InnerTrie<D>,
     nibble: Nibbles,
     nodes: Vec<TraceNode>,
+    /// The first error met, if any. Entries below the node it concerns are
+    /// not yielded.
+    error: Option<TrieError>,
 }
 
 impl<'a, D> TrieIterator<'a, D>
@@ -62,6 +68,17 @@ where
             trie,
             nibble: Nibbles::from_raw(&[], false),
             nodes,
+            error: None,
+        }
+    }
+
+    /// Collects the remaining entries, or returns the error that kept some of
+    /// them from being read.
+    pub(crate) fn try_collect(mut self) -> Result<Vec<(Vec<u8>, Vec<u8>)>> {
+        let values = self.by_ref().collect();
+        match self.error {
+            Some(err) => Err(err),
+            None => Ok(values),
         }
     }
 }
@@ -120,20 +137,30 @@ where
 
                     (TraceStatus::Doing, Node::Hash(ref hash_node)) => {
                         let node_hash = hash_node.hash;
-                        if let Ok(n) = self.trie.recover_from_db(node_hash) {
-                            self.nodes.pop();
-                            match n {
-                                Some(node) => self.nodes.push(node.into()),
-                                None => {
-                                    // TODO: add proper instrumentation
-                                    // warn!("Trie node with hash {:?} is missing from the database.
-                                    // Skipping...", &node_hash);
-                                    continue;
+                        match self.trie.recover_from_db(node_hash) {
+                            Ok(n) => {
+                                self.nodes.pop();
+                                match n {
+                                    Some(node) => self.nodes.push(node.into()),
+                                    None => {
+                                        // TODO: add proper instrumentation
+                                        // warn!("Trie node with hash {:?} is missing from the database.
+                                        // Skipping...", &node_hash);
+                                        self.error.get_or_insert(TrieError::MissingTrieNode {
+                                            node_hash,
+                                            traversed: Some(self.nibble.clone()),
+                                            root_hash: None,
+                                            err_key: None,
+                                        });
+                                        continue;
+                                    }
                                 }
                             }
-                        } else {
-                            //error!();
-                            return None;
+                            Err(err) => {
+                                //error!();
+                                self.error.get_or_insert(err);
+                                return None;
+                            }
                         }
                     }
 
-- 
2.43.0


From faeba8dbf01102e5113b225f688442bbc0c0d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 21/21] fix: size and listing of the in-memory database wait
 for a concurrent writer instead of panicking or coming back empty

---
 pmt/src/db.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pmt/src/db.rs b/pmt/src/db.rs
index 88171ed..e744add 100644
--- a/pmt/src/db.rs
+++ b/pmt/src/db.rs
@@ -110,20 +110,18 @@ impl Database for MemoryDB {
     }
 
     fn len(&self) -> Result<usize, Self::Error> {
-        Ok(self.storage.try_read().unwrap().len())
+        Ok(self.storage.read().len())
     }
 
     fn is_empty(&self) -> Result<bool, Self::Error> {
-        Ok(self.storage.try_read().unwrap().is_empty())
+        Ok(self.storage.read().is_empty())
     }
 
     fn values(&self) -> Result<Vec<(Vec<u8>, OwnedValue)>, Self::Error> {
         let mut values = Vec::new();
 
-        if let Some(handle) = self.storage.try_read() {
-            for (k, v) in handle.iter() {
-                values.push((k.clone(), v.clone()));
-            }
+        for (k, v) in self.storage.read().iter() {
+            values.push((k.clone(), v.clone()));
         }
 
         Ok(values)
-- 
2.43.0

