From 6ca3ed34c170c54b9f8348c3907b75df0825aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:32 +0000
Subject: [PATCH 01/16] jmt_sim hook: name ExclusionProof for the simulator
 (off by default)

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 553bc91..d09b795 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -101,6 +101,12 @@ pub use tree::JellyfishMerkleTree;
 #[cfg(any(test, feature = "sha2"))]
 pub use tree::Sha256Jmt;
 
+// Simulation hook, off by default: names the otherwise unnameable result type of
+// `JellyfishMerkleTree::get_with_exclusion_proof`.
+#[allow(unexpected_cfgs)]
+#[cfg(jmt_sim)]
+pub use tree::ExclusionProof;
+
 use types::nibble::ROOT_NIBBLE_HEIGHT;
 pub use types::proof;
 pub use types::Version;
-- 
2.43.0


From 7afadd9a7bcfe3a8d45634961474fe719b68df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 02/16] fix: record an empty first version under its own
 version number

Freezing a change set without effect on a store that has no root at the
previous version stored the null root under the previous version, so the
version that was just committed had no root and a version that never
existed appeared.
---
 src/tree_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index f2ec12b..281c848 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -296,7 +296,10 @@ where
             // If the root node does not exist, then we need to set it to the null node and record
             // that node hash as the root hash of this version. This will happen if you delete as
             // the first operation on an empty tree, but also if you manage to delete every single
-            // key-value mapping in the tree.
+            // key-value mapping in the tree. The null node belongs to the version being frozen:
+            // the previous version, which `root_node_key` names, does not exist.
+            root_node_key.set_version(self.next_version);
+            self.set_root_node_key(root_node_key.clone());
             self.put_node(root_node_key.clone(), Node::new_null())?;
             Node::Null
         };
-- 
2.43.0


From d75184834872985011f244e19435d09b9e3aa976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 03/16] fix: return storage read errors while building proofs
 instead of panicking

Reading a sibling or the only child of a range for a proof unwrapped the
reader's result, so a failed read of the store panicked.
---
 src/node_type.rs | 50 ++++++++++++++++++++++++++++++++----------------
 src/tree.rs      | 36 ++++++++++++++++++----------------
 2 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/src/node_type.rs b/src/node_type.rs
index e12bf1b..9b7f196 100644
--- a/src/node_type.rs
+++ b/src/node_type.rs
@@ -14,7 +14,7 @@ use crate::SimpleHasher;
 use alloc::format;
 use alloc::vec::Vec;
 use alloc::{boxed::Box, vec};
-use anyhow::Context;
+use anyhow::{bail, Context, Result};
 use borsh::{BorshDeserialize, BorshSerialize};
 use num_derive::{FromPrimitive, ToPrimitive};
 #[cfg(any(test))]
@@ -508,11 +508,11 @@ impl InternalNode {
         start: u8,
         width: u8,
         (existence_bitmap, leaf_bitmap): (u16, u16),
-    ) -> SparseMerkleNode {
+    ) -> Result<SparseMerkleNode> {
         // Given a bit [start, 1 << nibble_height], return the value of that range.
         let (range_existence_bitmap, range_leaf_bitmap) =
             Self::range_bitmaps(start, width, (existence_bitmap, leaf_bitmap));
-        if range_existence_bitmap == 0 {
+        Ok(if range_existence_bitmap == 0 {
             // No child under this subtree
             SparseMerkleNode::Null
         } else if has_only_child(width, range_existence_bitmap, range_leaf_bitmap) {
@@ -538,15 +538,18 @@ impl InternalNode {
                          the child of version {:?} at index {:x}.",
                         child.version, only_child_index
                     )
-                })
-                .unwrap();
+                })?;
 
             match child_node {
                 Node::Internal(node) => {
                     SparseMerkleNode::Internal(SparseMerkleInternalNode::from::<H>(node))
                 }
                 Node::Leaf(node) => SparseMerkleNode::Leaf(SparseMerkleLeafNode::from(node)),
-                Node::Null => unreachable!("Impossible to get a null node at this location"),
+                Node::Null => bail!(
+                    "Corruption error: the child of version {:?} at index {:x} is a null node.",
+                    child.version,
+                    only_child_index
+                ),
             }
         } else {
             let left_child = self.merkle_hash::<H>(
@@ -560,7 +563,7 @@ impl InternalNode {
                 (range_existence_bitmap, range_leaf_bitmap),
             );
             SparseMerkleNode::Internal(SparseMerkleInternalNode::new(left_child, right_child))
-        }
+        })
     }
 
     fn merkle_hash<H: SimpleHasher>(
@@ -679,7 +682,7 @@ impl InternalNode {
         node_key: &NodeKey,
         n: Nibble,
         get_only_child: bool,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         let mut siblings: Vec<SparseMerkleNode> = vec![];
         let (existence_bitmap, leaf_bitmap) = self.generate_bitmaps();
 
@@ -698,14 +701,14 @@ impl InternalNode {
                 sibling_half_start,
                 width,
                 (existence_bitmap, leaf_bitmap),
-            ));
+            )?);
 
             let (range_existence_bitmap, range_leaf_bitmap) =
                 Self::range_bitmaps(child_half_start, width, (existence_bitmap, leaf_bitmap));
 
             if range_existence_bitmap == 0 {
                 // No child in this range.
-                return (None, siblings);
+                return Ok((None, siblings));
             } else if get_only_child
                 && (has_only_child(width, range_existence_bitmap, range_leaf_bitmap))
             {
@@ -714,7 +717,7 @@ impl InternalNode {
                 // `None` because it's existence indirectly proves the n-th child doesn't exist.
                 // Please read proof format for details.
                 let only_child_index = Nibble::from(range_existence_bitmap.trailing_zeros() as u8);
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(only_child_index)
@@ -731,13 +734,13 @@ impl InternalNode {
                         Some(node_key.gen_child_node_key(only_child_version, only_child_index))
                     },
                     siblings,
-                );
+                ));
             } else if !get_only_child
                 && (has_child(width, range_existence_bitmap, n_bitmap, range_leaf_bitmap))
             {
                 // Early return the child in that subtree iff it is the only child and the nibble points
                 // to it
-                return (
+                return Ok((
                     {
                         let only_child_version = self
                             .child(n)
@@ -754,7 +757,7 @@ impl InternalNode {
                         Some(node_key.gen_child_node_key(only_child_version, n))
                     },
                     siblings,
-                );
+                ));
             }
         }
         unreachable!("Impossible to get here without returning even at the lowest level.")
@@ -767,23 +770,36 @@ impl InternalNode {
         tree_cache: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
-    ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
         self.get_child_with_siblings_helper::<H>(tree_cache, node_key, n, false)
     }
 
-    /// [`get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
+    /// [`try_get_only_child_with_siblings`] will **either** return the child that matches the nibble n or the only
     /// child in the largest width range pointed by n (see the helper function [`get_child_with_siblings_helper`] for more information).
     ///
     /// Even this leaf child is not the n-th child, it should be returned instead of
     /// `None` because it's existence indirectly proves the n-th child doesn't exist.
     /// Please read proof format for details.
+    pub(crate) fn try_get_only_child_with_siblings<H: SimpleHasher>(
+        &self,
+        tree_reader: &impl TreeReader,
+        node_key: &NodeKey,
+        n: Nibble,
+    ) -> Result<(Option<NodeKey>, Vec<SparseMerkleNode>)> {
+        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+    }
+
+    /// Same as [`try_get_only_child_with_siblings`](InternalNode::try_get_only_child_with_siblings),
+    /// for readers that never fail.
+    #[cfg(test)]
     pub(crate) fn get_only_child_with_siblings<H: SimpleHasher>(
         &self,
         tree_reader: &impl TreeReader,
         node_key: &NodeKey,
         n: Nibble,
     ) -> (Option<NodeKey>, Vec<SparseMerkleNode>) {
-        self.get_child_with_siblings_helper::<H>(tree_reader, node_key, n, true)
+        self.try_get_only_child_with_siblings::<H>(tree_reader, node_key, n)
+            .unwrap()
     }
 
     #[cfg(test)]
diff --git a/src/tree.rs b/src/tree.rs
index 5662c3a..d74e5a0 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -672,7 +672,7 @@ where
                         tree_cache,
                         &node_key,
                         child_index,
-                    );
+                    )?;
                     (child_key.unwrap(), siblings)
                 } else {
                     (
@@ -709,19 +709,23 @@ where
                 // we are looking for.
                 let merkle_proof = if with_proof {
                     let (child_key_opt, mut siblings) = internal_node
-                        .get_only_child_with_siblings::<H>(tree_cache, &node_key, child_index);
-
-                    let leaf: Option<SparseMerkleLeafNode> = child_key_opt.map(|child_key|
-                    {
-                        // We should be able to find the node in the case
-                        let node = tree_cache.get_node(&child_key).expect("this node should be in the cache");
-                        match node {
-                            Leaf(leaf_node) => {
-                                leaf_node.into()
-                            },
-                            _ => unreachable!("get_only_child_with_siblings should return a leaf node in that case")
-                        }
-                    });
+                        .try_get_only_child_with_siblings::<H>(
+                            tree_cache,
+                            &node_key,
+                            child_index,
+                        )?;
+
+                    let leaf: Option<SparseMerkleLeafNode> = match child_key_opt {
+                        // We should be able to find the node in this case
+                        Some(child_key) => match tree_cache.get_node(&child_key)? {
+                            Leaf(leaf_node) => Some(leaf_node.into()),
+                            _ => bail!(
+                                "Expected a leaf node, the only child in its range, with node key {:?}",
+                                child_key
+                            ),
+                        },
+                        None => None,
+                    };
 
                     siblings.reverse();
                     Some(SparseMerkleProof::new(leaf, siblings))
@@ -1031,11 +1035,11 @@ where
                         .ok_or_else(|| format_err!("ran out of nibbles"))?;
 
                     let (child_node_key, mut siblings_in_internal) = internal_node
-                        .get_only_child_with_siblings::<H>(
+                        .try_get_only_child_with_siblings::<H>(
                             self.reader,
                             &next_node_key,
                             queried_child_index,
-                        );
+                        )?;
 
                     siblings.append(&mut siblings_in_internal);
                     next_node_key = match child_node_key {
-- 
2.43.0


From 19f9dafc4c7ae0a6117b64b489e336f98a578dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 04/16] fix: do not report a version as missing when reading
 its root fails

get_with_proof and the exclusion-proof search mapped every error of the
root read to MissingRootError, also a storage failure.
---
 src/tree.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d74e5a0..8c7ab22 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -1021,13 +1021,13 @@ where
         // We limit the number of loops here deliberately to avoid potential cyclic graph bugs
         // in the tree structure.
         for nibble_depth in 0..=ROOT_NIBBLE_HEIGHT {
-            let next_node = self.reader.get_node(&next_node_key).map_err(|err| {
-                if nibble_depth == 0 {
-                    anyhow::anyhow!(MissingRootError { version })
-                } else {
-                    err
-                }
-            })?;
+            let next_node = if nibble_depth == 0 {
+                // Only an absent root means that the version is missing: a failed read does not.
+                self.get_root_node_option(version)?
+                    .ok_or_else(|| anyhow::anyhow!(MissingRootError { version }))?
+            } else {
+                self.reader.get_node(&next_node_key)?
+            };
             match next_node {
                 Node::Internal(internal_node) => {
                     let queried_child_index = nibble_iter
@@ -1141,13 +1141,13 @@ where
         let mut internal_nodes = vec![];
 
         for nibble_depth in 0..=ROOT_NIBBLE_HEIGHT {
-            let next_node = self.reader.get_node(&next_node_key).map_err(|err| {
-                if nibble_depth == 0 {
-                    anyhow::anyhow!(MissingRootError { version })
-                } else {
-                    err
-                }
-            })?;
+            let next_node = if nibble_depth == 0 {
+                // Only an absent root means that the version is missing: a failed read does not.
+                self.get_root_node_option(version)?
+                    .ok_or_else(|| anyhow::anyhow!(MissingRootError { version }))?
+            } else {
+                self.reader.get_node(&next_node_key)?
+            };
 
             match next_node {
                 Node::Internal(node) => {
-- 
2.43.0


From 4fdf4822266b536f644901ba0b151c622b6b190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 05/16] fix: iterator: retry after a failed value read, and
 stay finished

A failed read of the value of a single-leaf tree ended the iteration, so
the pair was skipped. A finished iterator over a deeper tree read the root
again on every call and returned an error once the version was pruned.
---
 src/iterator.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/iterator.rs b/src/iterator.rs
index a58638b..db36651 100644
--- a/src/iterator.rs
+++ b/src/iterator.rs
@@ -289,19 +289,22 @@ where
                     // This means the entire tree has a single leaf node. The key of this leaf node
                     // is greater or equal to `starting_key` (otherwise we would have set `done` to
                     // true in `new`). Return the node and mark `self.done` so next time we return
-                    // None.
-                    self.done = true;
+                    // None. If the value cannot be read, the next call tries again.
                     return match self
                         .reader
                         .get_value(root_node_key.version(), leaf_node.key_hash())
                     {
-                        Ok(value) => Some(Ok((leaf_node.key_hash(), value))),
+                        Ok(value) => {
+                            self.done = true;
+                            Some(Ok((leaf_node.key_hash(), value)))
+                        }
                         Err(e) => Some(Err(e)),
                     };
                 }
                 Ok(Node::Internal(_)) => {
                     // This means `starting_key` is bigger than every key in this tree, or we have
                     // iterated past the last key.
+                    self.done = true;
                     return None;
                 }
                 Ok(Node::Null) => unreachable!("We would have set done to true in new."),
@@ -337,10 +340,13 @@ where
                         Ok(value) => {
                             let ret = (leaf_node.key_hash(), value);
                             Self::cleanup_stack(&mut self.parent_stack);
+                            // With no pair left to visit the iteration has finished, and it stays
+                            // finished even if this version's root is pruned later.
+                            self.done = self.parent_stack.is_empty();
                             Some(Ok(ret))
                         }
                         Err(e) => Some(Err(e)),
-                    }
+                    };
                 }
                 Ok(Node::Null) => return Some(Err(format_err!("Should not reach a null node."))),
                 Err(err) => return Some(Err(err)),
-- 
2.43.0


From df3ed5222cb43409f7a9243c60f157b582a31a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:55 +0000
Subject: [PATCH 06/16] fix: restore: reject a key under a completely restored
 subtree

After a restart the source can send a key that is greater than the last
stored leaf but belongs to a subtree whose internal node is stored already;
the restore panicked on it.
---
 src/restore.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index 9b57d67..d14cf37 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -303,9 +303,9 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 );
             }
             let value_hash = ValueHash::with::<H>(value.as_slice());
-            self.frozen_nodes.insert_value(self.version, key, value);
 
-            self.add_one(key, value_hash);
+            self.add_one(key, value_hash)?;
+            self.frozen_nodes.insert_value(self.version, key, value);
             self.previous_leaf.replace(LeafNode::new(key, value_hash));
             self.num_keys_received += 1;
         }
@@ -321,14 +321,19 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Restores one account.
-    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) {
+    fn add_one(&mut self, new_key: KeyHash, value_hash: ValueHash) -> Result<()> {
         let nibble_path = NibblePath::new(new_key.0.to_vec());
         let mut nibbles = nibble_path.nibbles();
 
         for i in 0..ROOT_NIBBLE_HEIGHT {
             let child_index = u8::from(nibbles.next().expect("This nibble must exist.")) as usize;
 
-            assert!(i < self.partial_nodes.len());
+            // After recovering from a crash, the rightmost child of the lowest partial node can be
+            // an internal node that is complete already.
+            ensure!(
+                i < self.partial_nodes.len(),
+                "Account key belongs to a subtree that has been restored completely.",
+            );
             match self.partial_nodes[i].children[child_index] {
                 Some(ref child_info) => {
                     // If there exists an internal node at this position, we just continue the loop
@@ -371,6 +376,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+        Ok(())
     }
 
     /// Inserts a new account at the position of the existing leaf node. We may need to create
-- 
2.43.0


From 3cf5a36fbbab82f8279695c7b6963fba8b59be45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 07/16] fix: restore: finish only with the expected root hash,
 also for an empty tree

A chunk proves its pairs together with the siblings on their right, so a
source that stops early passes every check; finish then wrote a root with
another hash than the expected one. Finishing a restore without any pair
panicked.
---
 src/restore.rs | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index d14cf37..e9a046c 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -671,17 +671,43 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             if num_children == 1 {
                 if let Some(node) = leaf {
                     let node_key = NodeKey::new_empty_path(self.version);
-                    assert!(self.frozen_nodes.is_empty());
-                    self.frozen_nodes.insert_node(node_key, node.into());
+                    let root_node = Node::from(node);
+                    self.ensure_expected_root(&root_node)?;
+                    self.frozen_nodes.insert_node(node_key, root_node);
                     self.store.write_node_batch(&self.frozen_nodes)?;
                     return Ok(());
                 }
             }
         }
 
-        self.freeze(0);
+        let root_node_key = NodeKey::new_empty_path(self.version);
+        if self.previous_leaf.is_none() {
+            // No account has been added, so this is the empty tree.
+            self.frozen_nodes
+                .insert_node(root_node_key.clone(), Node::new_null());
+        } else {
+            self.freeze(0);
+        }
+
+        // A chunk is only verified together with the siblings on the right of its last account:
+        // check that there is nothing left to add before the root node is written.
+        let root_node = self.frozen_nodes.nodes().get(&root_node_key);
+        self.ensure_expected_root(root_node.expect("The root node has just been frozen."))?;
+
         self.store.write_node_batch(&self.frozen_nodes)
     }
+
+    /// Checks that the given root node is the root of the tree we are expected to restore.
+    fn ensure_expected_root(&self, root_node: &Node) -> Result<()> {
+        let root_hash = RootHash(root_node.hash::<H>());
+        ensure!(
+            root_hash == self.expected_root_hash,
+            "Restored tree has root hash {:?}, expected {:?}.",
+            root_hash,
+            self.expected_root_hash,
+        );
+        Ok(())
+    }
 }
 
 /// The interface used with [`JellyfishMerkleRestore`], taken from the Diem `storage-interface` crate.
-- 
2.43.0


From 6de9ba108c0607906b035133f1492094297839fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 08/16] fix: restore: recognise a store that has been restored
 completely

Starting a restore over a finished one panicked, or returned an error for
a single-leaf tree, so a node that crashed after the last write but before
it noted the end of the restore could not continue.
---
 src/restore.rs | 78 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index e9a046c..e693c83 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -111,10 +111,11 @@ pub struct JellyfishMerkleRestore<H: SimpleHasher> {
     /// The version of the tree we are restoring.
     version: Version,
 
-    /// The nodes we have partially restored. Each `partial_nodes[i-1]` is the parent of
-    /// `partial_nodes[i]`. If a node `partial_nodes[i-1]` has multiple children, only the
-    /// rightmost known child will appear here as `partial_nodes[i]`, because any other children on
-    /// the left would have been frozen.
+    /// The nodes we have partially restored. There are none if the store held the whole tree
+    /// from the start. Otherwise, each `partial_nodes[i-1]` is the parent of `partial_nodes[i]`.
+    /// If a node `partial_nodes[i-1]` has multiple children, only the rightmost known child will
+    /// appear here as `partial_nodes[i]`, because any other children on the left would have been
+    /// frozen.
     ///
     /// At any point in time, the structure looks like the following:
     ///
@@ -166,21 +167,25 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         expected_root_hash: RootHash,
     ) -> Result<Self> {
         let tree_reader = Arc::clone(&store);
-        let (partial_nodes, previous_leaf) =
-            if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
-                // TODO: confirm rightmost leaf is at the desired version
-                // If the system crashed in the middle of the previous restoration attempt, we need
-                // to recover the partial nodes to the state right before the crash.
-                (
-                    Self::recover_partial_nodes(tree_reader.as_ref(), version, node_key)?,
-                    Some(leaf_node),
-                )
-            } else {
-                (
-                    vec![InternalInfo::new_empty(NodeKey::new_empty_path(version))],
-                    None,
-                )
-            };
+        let root_node = tree_reader.get_node_option(&NodeKey::new_empty_path(version))?;
+        let (partial_nodes, previous_leaf) = if let Some(root_node) = root_node {
+            // The root node is written last, so the previous restoration has completed.
+            Self::ensure_root_hash(&root_node, expected_root_hash)?;
+            (vec![], None)
+        } else if let Some((node_key, leaf_node)) = tree_reader.get_rightmost_leaf()? {
+            // TODO: confirm rightmost leaf is at the desired version
+            // If the system crashed in the middle of the previous restoration attempt, we need
+            // to recover the partial nodes to the state right before the crash.
+            (
+                Self::recover_partial_nodes(tree_reader.as_ref(), version, node_key)?,
+                Some(leaf_node),
+            )
+        } else {
+            (
+                vec![InternalInfo::new_empty(NodeKey::new_empty_path(version))],
+                None,
+            )
+        };
 
         Ok(Self {
             store,
@@ -194,6 +199,11 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         })
     }
 
+    /// Whether the tree has been restored completely by an earlier restoration.
+    fn is_complete(&self) -> bool {
+        self.partial_nodes.is_empty()
+    }
+
     pub fn new_overwrite<D: 'static + TreeWriter>(
         store: Arc<D>,
         version: Version,
@@ -229,6 +239,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // not exist. This node and all its ancestors will be the partial nodes.
         let mut node_key = rightmost_leaf_node_key.gen_parent_node_key();
         while store.get_node_option(&node_key)?.is_some() {
+            ensure!(
+                !node_key.nibble_path().is_empty(),
+                "The rightmost leaf belongs to another tree that is complete already.",
+            );
             node_key = node_key.gen_parent_node_key();
         }
 
@@ -294,6 +308,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         proof: SparseMerkleRangeProof<H>,
     ) -> Result<()> {
         ensure!(!chunk.is_empty(), "Should not add empty chunks.");
+        ensure!(
+            !self.is_complete(),
+            "The tree has been restored completely already."
+        );
 
         for (key, value) in chunk {
             if let Some(ref prev_leaf) = self.previous_leaf {
@@ -655,6 +673,10 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     /// Finishes the restoration process. This tells the code that there is no more account,
     /// otherwise we can not freeze the rightmost leaf and its ancestors.
     fn finish_impl(mut self) -> Result<()> {
+        if self.is_complete() {
+            return Ok(());
+        }
+
         // Deal with the special case when the entire tree has a single leaf.
         if self.partial_nodes.len() == 1 {
             let mut num_children = 0;
@@ -672,7 +694,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 if let Some(node) = leaf {
                     let node_key = NodeKey::new_empty_path(self.version);
                     let root_node = Node::from(node);
-                    self.ensure_expected_root(&root_node)?;
+                    Self::ensure_root_hash(&root_node, self.expected_root_hash)?;
                     self.frozen_nodes.insert_node(node_key, root_node);
                     self.store.write_node_batch(&self.frozen_nodes)?;
                     return Ok(());
@@ -691,20 +713,24 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
         // A chunk is only verified together with the siblings on the right of its last account:
         // check that there is nothing left to add before the root node is written.
-        let root_node = self.frozen_nodes.nodes().get(&root_node_key);
-        self.ensure_expected_root(root_node.expect("The root node has just been frozen."))?;
+        let root_node = self
+            .frozen_nodes
+            .nodes()
+            .get(&root_node_key)
+            .expect("The root node has just been frozen.");
+        Self::ensure_root_hash(root_node, self.expected_root_hash)?;
 
         self.store.write_node_batch(&self.frozen_nodes)
     }
 
     /// Checks that the given root node is the root of the tree we are expected to restore.
-    fn ensure_expected_root(&self, root_node: &Node) -> Result<()> {
+    fn ensure_root_hash(root_node: &Node, expected_root_hash: RootHash) -> Result<()> {
         let root_hash = RootHash(root_node.hash::<H>());
         ensure!(
-            root_hash == self.expected_root_hash,
-            "Restored tree has root hash {:?}, expected {:?}.",
+            root_hash == expected_root_hash,
+            "The tree in the store has root hash {:?}, expected {:?}.",
             root_hash,
-            self.expected_root_hash,
+            expected_root_hash,
         );
         Ok(())
     }
-- 
2.43.0


From 32d4a23c2a364a19dc4a3a0c8fd212e73aeba792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 09/16] fix: reject update and range proofs with more than 256
 siblings

The number of siblings comes from the prover; verification subtracted it
from 256 without a check and panicked.
---
 src/types/proof/definition.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index c29d2b1..5cdfc61 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -308,6 +308,13 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
         new_element_key: KeyHash,
         new_element_value: Option<V>,
     ) -> Result<RootHash> {
+        ensure!(
+            self.siblings.len() <= 256,
+            "Sparse Merkle Tree proof has more than {} ({}) siblings.",
+            256,
+            self.siblings.len(),
+        );
+
         if let Some(new_element_value) = new_element_value {
             // A value have been supplied, we need to prove that we inserted a given value at the new key
 
@@ -654,6 +661,13 @@ impl<H: SimpleHasher> SparseMerkleRangeProof<H> {
         left_siblings: Vec<[u8; 32]>,
     ) -> Result<()> {
         let num_siblings = left_siblings.len() + self.right_siblings.len();
+        ensure!(
+            num_siblings <= 256,
+            "Sparse Merkle range proof has more than {} ({}) siblings.",
+            256,
+            num_siblings,
+        );
+
         let mut left_sibling_iter = left_siblings.iter();
         let mut right_sibling_iter = self.right_siblings().iter();
 
-- 
2.43.0


From f1324258ff88c76b8ba7cb987490a15805cd67a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 10/16] fix: an insertion proof has to end at the leaf that the
 new key splits

For an insertion next to another leaf only the path of that leaf was
verified, so any leaf of the tree was accepted, and a leaf elsewhere made
the computation of the new path underflow or place the key wrongly.
---
 src/types/proof/definition.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 5cdfc61..00190e6 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -322,9 +322,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                 // In the case there is a leaf in the Merkle path, we check that this leaf exists in the tree
                 // The inserted key is going to update an existing leaf
                 Some(leaf_node) => {
-                    // First verify that the old merkle path is valid
-                    ensure!(self.root_hash() == old_root_hash);
                     if new_element_key == leaf_node.key_hash {
+                        // First verify that the old merkle path is valid
+                        ensure!(self.root_hash() == old_root_hash);
+
                         // Step 2: we compute the new Merkle path (we build a new [`SparseMerkleProof`] object)
                         // In this case the siblings are left unchanged, only the leaf value is updated
                         let new_merkle_path: SparseMerkleProof<H> = SparseMerkleProof::new(
@@ -338,6 +339,10 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
                         // Step 3: we compute the new Merkle root
                         Ok(new_merkle_path.root_hash())
                     } else {
+                        // First verify that the old merkle path is valid, and that it is the path
+                        // of the new key: the leaf has to be the one that the new key splits.
+                        self.verify_nonexistence(old_root_hash, new_element_key)?;
+
                         let new_merkle_path = self.compute_new_merkle_path_on_split(
                             leaf_node,
                             new_element_key,
-- 
2.43.0


From 4d8c4c5c532e7ad3ddc98f1be836936ea9c2fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 11/16] fix: prove the absence of a deleted key instead of
 accepting any deletion

verify_update accepted the deletion of a key that is in the tree, with an
unchanged root, given a proof without a leaf. The deletion of an absent key
now comes with a proof of its absence, which is verified.
---
 src/tree.rs                   | 27 ++++++++-------------------
 src/types/proof/definition.rs | 17 ++++++++---------
 2 files changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 8c7ab22..8fb2f67 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -748,15 +748,8 @@ where
                         merkle_proof,
                     )
                 } else {
-                    // If there was no changes, don't generate a proof
-                    (
-                        PutResult::NotChanged,
-                        if with_proof {
-                            Some(SparseMerkleProof::new(None, vec![]))
-                        } else {
-                            None
-                        },
-                    )
+                    // The key to delete doesn't exist, which is what the proof shows
+                    (PutResult::NotChanged, merkle_proof)
                 }
             }
         };
@@ -765,14 +758,7 @@ where
         let mut children: Children = internal_node.into();
         match put_result {
             PutResult::NotChanged => {
-                return Ok((
-                    PutResult::NotChanged,
-                    if with_proof {
-                        Some(SparseMerkleProof::new(None, vec![]))
-                    } else {
-                        None
-                    },
-                ));
+                return Ok((PutResult::NotChanged, merkle_proof));
             }
             PutResult::Updated((_, new_node)) => {
                 // update child
@@ -970,11 +956,14 @@ where
                 },
             ))
         } else {
-            // delete not found
+            // delete not found: the leaf in the place of the key shows that it doesn't exist
             Ok((
                 PutResult::NotChanged,
                 if with_proof {
-                    Some(SparseMerkleProof::new(None, vec![]))
+                    Some(SparseMerkleProof::new(
+                        Some(existing_leaf_node.into()),
+                        vec![],
+                    ))
                 } else {
                     None
                 },
diff --git a/src/types/proof/definition.rs b/src/types/proof/definition.rs
index 00190e6..0e4e374 100644
--- a/src/types/proof/definition.rs
+++ b/src/types/proof/definition.rs
@@ -376,14 +376,12 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
             }
         } else {
             // No value supplied, we need to prove that the previous value was deleted
-            if let Some(leaf_node) = self.leaf {
+            if self
+                .leaf
+                .as_ref()
+                .map_or(false, |leaf_node| leaf_node.key_hash == new_element_key)
+            {
                 ensure!(self.root_hash() == old_root_hash);
-                ensure!(
-                    new_element_key == leaf_node.key_hash,
-                    "Key {:?} to remove doesn't match the leaf key {:?} supplied with the proof",
-                    new_element_key,
-                    leaf_node.key_hash
-                );
 
                 // Step 2: we compute the new Merkle tree path.
                 // In case of deletion, we need to rewind the nibble until we reach the first non-default hash
@@ -487,8 +485,9 @@ impl<H: SimpleHasher> SparseMerkleProof<H> {
 
                 Ok(new_merkle_hash)
             } else {
-                // We just return the old root hash if we try to remove the empty node
-                // because there isn't any changes to the merkle tree
+                // Removing a key that is not in the tree doesn't change the tree: the proof has to
+                // show that the key is absent, and the root hash stays the same.
+                self.verify_nonexistence(old_root_hash, new_element_key)?;
                 Ok(old_root_hash)
             }
         }
-- 
2.43.0


From f958c8310152713fa44c50b726b2a5d8fb244705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 12/16] fix: record the root node that a new version replaces
 as stale

A version without effect copies the root node, and the first insertion into
an empty tree replaces the null root node: in both cases the old root node
had no stale record, so it was never pruned. After a version without effect
in the middle of a batch the next version started from the wrong copy.
---
 src/tree.rs       | 10 +++++-----
 src/tree_cache.rs |  6 ++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 8fb2f67..076cbd6 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -209,9 +209,8 @@ where
                     );
                 }
 
-                if node_key.version() == version {
-                    tree_cache.delete_node(&node_key, false /* is_leaf */);
-                }
+                // We delete the null root node because it is replaced by the new subtree.
+                tree_cache.delete_node(&node_key, false /* is_leaf */);
                 self.batch_create_subtree(
                     NodeKey::new_empty_path(version),
                     version,
@@ -623,8 +622,9 @@ where
                         root_node_key
                     );
                 }
-                // Delete the old null node if the at the same version
-                if root_node_key.version() == version && node_already_exists {
+                // Delete the old null node if it is replaced by a leaf node, or if it is at the same
+                // version
+                if node_already_exists && (value.is_some() || root_node_key.version() == version) {
                     tree_cache.delete_node(&root_node_key, false /* is_leaf */);
                 }
                 if let Some(value) = value {
diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 281c848..080f0bb 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -322,6 +322,12 @@ where
         {
             let root_node = self.get_node(&self.root_node_key)?;
             root_node_key.set_version(self.next_version);
+            if root_node_key != self.root_node_key {
+                // The copy replaces the previous root node.
+                let old_root_node_key = self.root_node_key.clone();
+                self.delete_node(&old_root_node_key, root_node.is_leaf());
+                self.set_root_node_key(root_node_key.clone());
+            }
             self.put_node(root_node_key, root_node)?;
         }
 
-- 
2.43.0


From 0f2043af6183e6b263504ae9fea074923c4e65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 13/16] fix: append: never record a node of the new tree as
 stale

Appending replaces nodes under their own node keys, and each replaced node
was recorded as stale, so that pruning deleted live nodes. Deleting from an
empty tree recorded its live root as stale, and after the deletion of the
last key it dropped the new root node.
---
 src/tree.rs       | 12 +++++++-----
 src/tree_cache.rs | 49 +++++++++++++++++++++++++++++------------------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 076cbd6..2c8833f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -622,12 +622,11 @@ where
                         root_node_key
                     );
                 }
-                // Delete the old null node if it is replaced by a leaf node, or if it is at the same
-                // version
-                if node_already_exists && (value.is_some() || root_node_key.version() == version) {
-                    tree_cache.delete_node(&root_node_key, false /* is_leaf */);
-                }
                 if let Some(value) = value {
+                    // Delete the old null node, which is replaced by a leaf node
+                    if node_already_exists {
+                        tree_cache.delete_node(&root_node_key, false /* is_leaf */);
+                    }
                     // If we're inserting into the null root node, we should change it to be a leaf node
                     let (new_root_node_key, new_root_node) = Self::create_leaf_node(
                         NodeKey::new_empty_path(version),
@@ -641,6 +640,9 @@ where
                     ))
                 } else {
                     // If we're deleting from the null root node, nothing needs to change
+                    if version == 0 {
+                        tree_cache.discard_null_root(&root_node_key);
+                    }
                     Ok((PutResult::NotChanged, merkle_proof_null))
                 }
             }
diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 080f0bb..6e9555f 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -68,9 +68,9 @@
 
 use alloc::{collections::BTreeSet, vec::Vec};
 #[cfg(not(feature = "std"))]
-use hashbrown::{hash_map::Entry, HashMap, HashSet};
+use hashbrown::{hash_map::Entry, HashMap};
 #[cfg(feature = "std")]
-use std::collections::{hash_map::Entry, HashMap, HashSet};
+use std::collections::{hash_map::Entry, HashMap};
 
 use anyhow::{bail, Result};
 
@@ -133,11 +133,8 @@ pub struct TreeCache<'a, R> {
     /// # of leaves in the `node_cache`,
     num_new_leaves: usize,
 
-    /// Partial stale log. `NodeKey` to identify the stale record.
-    stale_node_index_cache: HashSet<NodeKey>,
-
-    /// # of leaves in the `stale_node_index_cache`,
-    num_stale_leaves: usize,
+    /// Partial stale log. `NodeKey` to identify the stale record, and whether it is a leaf node.
+    stale_node_index_cache: HashMap<NodeKey, bool>,
 
     /// The immutable part of this cache, which will be committed to the underlying storage.
     frozen_cache: FrozenTreeCache,
@@ -177,12 +174,11 @@ where
         };
         Ok(Self {
             node_cache,
-            stale_node_index_cache: HashSet::new(),
+            stale_node_index_cache: HashMap::new(),
             frozen_cache: FrozenTreeCache::new(),
             root_node_key,
             next_version,
             reader,
-            num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
         })
@@ -209,12 +205,11 @@ where
         let root_node_key = NodeKey::new_empty_path(current_version);
         Ok(Self {
             node_cache,
-            stale_node_index_cache: HashSet::new(),
+            stale_node_index_cache: HashMap::new(),
             frozen_cache: FrozenTreeCache::new(),
             root_node_key,
             next_version: current_version,
             reader,
-            num_stale_leaves: 0,
             num_new_leaves: 0,
             value_cache: Default::default(),
         })
@@ -276,16 +271,23 @@ where
         // If node cache doesn't have this node, it means the node is in the previous version of
         // the tree on the disk.
         if self.node_cache.remove(old_node_key).is_none() {
-            let is_new_entry = self.stale_node_index_cache.insert(old_node_key.clone());
-            assert!(is_new_entry, "Node gets stale twice unexpectedly.");
-            if is_leaf {
-                self.num_stale_leaves += 1;
-            }
+            let old_entry = self
+                .stale_node_index_cache
+                .insert(old_node_key.clone(), is_leaf);
+            assert!(old_entry.is_none(), "Node gets stale twice unexpectedly.");
         } else if is_leaf {
             self.num_new_leaves -= 1;
         }
     }
 
+    /// Discards the null root node that an empty tree starts from, unless it replaces the stored
+    /// root node at the same version.
+    pub(crate) fn discard_null_root(&mut self, root_node_key: &NodeKey) {
+        if !self.stale_node_index_cache.contains_key(root_node_key) {
+            self.node_cache.remove(root_node_key);
+        }
+    }
+
     /// Freezes all the contents in cache to be immutable and clear `node_cache`.
     pub fn freeze<H: SimpleHasher>(&mut self) -> Result<()> {
         let mut root_node_key = self.get_root_node_key().clone();
@@ -331,13 +333,23 @@ where
             self.put_node(root_node_key, root_node)?;
         }
 
+        // When appending to the latest version, a node can be replaced under its own key: the new
+        // node overwrites the old one, so there is nothing left to prune.
+        let node_cache = &self.node_cache;
+        self.stale_node_index_cache
+            .retain(|node_key, _| !node_cache.contains_key(node_key));
+
         // Transfer all the state from this version of the cache into the immutable version of the
         // cache, draining it and resetting it as we go:
         let node_stats = NodeStats {
             new_nodes: self.node_cache.len(),
             new_leaves: self.num_new_leaves,
             stale_nodes: self.stale_node_index_cache.len(),
-            stale_leaves: self.num_stale_leaves,
+            stale_leaves: self
+                .stale_node_index_cache
+                .values()
+                .filter(|is_leaf| **is_leaf)
+                .count(),
         };
         self.frozen_cache.node_stats.push(node_stats);
         self.frozen_cache
@@ -349,14 +361,13 @@ where
             .extend(
                 self.stale_node_index_cache
                     .drain()
-                    .map(|node_key| StaleNodeIndex {
+                    .map(|(node_key, _)| StaleNodeIndex {
                         stale_since_version,
                         node_key,
                     }),
             );
 
         // Clean up
-        self.num_stale_leaves = 0;
         self.num_new_leaves = 0;
 
         // Prepare for the next version after freezing
-- 
2.43.0


From f628ec4ba8bb72aefbce3588d5d18bddc426bc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:28 +0000
Subject: [PATCH 14/16] fix: mock store: a refused write leaves no trace

A node batch, leaf or update batch was applied up to the first conflict
before it was refused.
---
 src/mock.rs | 85 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/src/mock.rs b/src/mock.rs
index 536efc6..1456800 100644
--- a/src/mock.rs
+++ b/src/mock.rs
@@ -98,22 +98,33 @@ impl HasPreimage for MockTreeStore {
 impl TreeWriter for MockTreeStore {
     fn write_node_batch(&self, node_batch: &NodeBatch) -> Result<()> {
         let mut locked = self.data.write();
-        for (node_key, node) in node_batch.nodes() {
-            let replaced = locked.nodes.insert(node_key.clone(), node.clone());
-            if !self.allow_overwrite {
-                assert_eq!(replaced, None);
-            }
-        }
-        for ((version, key_hash), value) in node_batch.values() {
-            put_value(
-                &mut locked.value_history,
-                *version,
-                *key_hash,
-                value.clone(),
-            )?
-        }
-        Ok(())
+        self.check_node_batch(&locked, node_batch)?;
+        apply_node_batch(&mut locked, node_batch)
+    }
+}
+
+/// Writes a batch that has been checked with [`MockTreeStore::check_node_batch`].
+fn apply_node_batch(inner: &mut MockTreeStoreInner, node_batch: &NodeBatch) -> Result<()> {
+    for (node_key, node) in node_batch.nodes() {
+        inner.nodes.insert(node_key.clone(), node.clone());
+    }
+    for ((version, key_hash), value) in node_batch.values() {
+        put_value(&mut inner.value_history, *version, *key_hash, value.clone())?
     }
+    Ok(())
+}
+
+/// Checks that a value can be placed into the provided value history map.
+fn check_value(
+    value_history: &HashMap<KeyHash, Vec<(Version, Option<OwnedValue>)>>,
+    version: Version,
+    key: &KeyHash,
+) -> Result<()> {
+    let last = value_history.get(key).and_then(|history| history.last());
+    if let Some((last_version, _)) = last {
+        ensure!(version >= *last_version, "values must be pushed in order");
+    }
+    Ok(())
 }
 
 /// Place a value into the provided value history map. Versions must be pushed in non-decreasing order per key.
@@ -157,12 +168,13 @@ impl MockTreeStore {
         let key_hash = leaf.key_hash();
         let version = node_key.version();
         let mut locked = self.data.write();
-        match locked.nodes.entry(node_key) {
-            Entry::Occupied(o) => bail!("Key {:?} exists.", o.key()),
-            Entry::Vacant(v) => {
-                v.insert(leaf.into());
-            }
-        }
+        ensure!(
+            !locked.nodes.contains_key(&node_key),
+            "Key {:?} exists.",
+            node_key
+        );
+        check_value(&locked.value_history, version, &key_hash)?;
+        locked.nodes.insert(node_key, leaf.into());
         put_value(&mut locked.value_history, version, key_hash, Some(value))
     }
 
@@ -173,19 +185,32 @@ impl MockTreeStore {
             .insert(key_hash, preimage.clone());
     }
 
-    fn put_stale_node_index(&self, index: StaleNodeIndex) -> Result<()> {
-        let is_new_entry = self.data.write().stale_nodes.insert(index);
-        ensure!(is_new_entry, "Duplicated retire log.");
+    /// Checks that the whole batch can be written, so that a batch that is refused leaves no
+    /// trace.
+    fn check_node_batch(&self, inner: &MockTreeStoreInner, node_batch: &NodeBatch) -> Result<()> {
+        if !self.allow_overwrite {
+            for node_key in node_batch.nodes().keys() {
+                assert_eq!(inner.nodes.get(node_key), None);
+            }
+        }
+        for (version, key_hash) in node_batch.values().keys() {
+            check_value(&inner.value_history, *version, key_hash)?;
+        }
         Ok(())
     }
 
     pub fn write_tree_update_batch(&self, batch: TreeUpdateBatch) -> Result<()> {
-        self.write_node_batch(&batch.node_batch)?;
-        batch
-            .stale_node_index_batch
-            .into_iter()
-            .map(|i| self.put_stale_node_index(i))
-            .collect::<Result<Vec<_>>>()?;
+        let mut locked = self.data.write();
+        self.check_node_batch(&locked, &batch.node_batch)?;
+        for index in &batch.stale_node_index_batch {
+            ensure!(
+                !locked.stale_nodes.contains(index),
+                "Duplicated retire log."
+            );
+        }
+
+        apply_node_batch(&mut locked, &batch.node_batch)?;
+        locked.stale_nodes.extend(batch.stale_node_index_batch);
         Ok(())
     }
 
-- 
2.43.0


From 46e08a33a3fda22852ae9ece39198708d3566efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 15/16] fix: restore: report missing accounts instead of
 panicking

After a crash the lowest partial node can have a single leaf child. Adding an
account beyond its subtree, or finishing, then panicked while the partial node
was turned into an internal node.
---
 src/restore.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/restore.rs b/src/restore.rs
index e693c83..d19e9e5 100644
--- a/src/restore.rs
+++ b/src/restore.rs
@@ -84,6 +84,15 @@ impl InternalInfo {
         self.children[index] = Some(child_info);
     }
 
+    /// Returns whether the only child is a leaf node, so that this is not a complete internal node.
+    fn has_single_leaf_child(&self) -> bool {
+        let mut children = self.children.iter().flatten();
+        matches!(
+            (children.next(), children.next()),
+            (Some(ChildInfo::Leaf { .. }), None)
+        )
+    }
+
     /// Converts `self` to an internal node, assuming all of its children are already known and
     /// fully initialized.
     fn into_internal_node<H: SimpleHasher>(mut self, version: Version) -> (NodeKey, InternalNode) {
@@ -378,7 +387,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 None => {
                     // This means that we are going to put a leaf in this position. For all the
                     // descendants on the left, they are now frozen.
-                    self.freeze(i + 1);
+                    self.freeze(i + 1)?;
 
                     // Mark this position as a leaf child.
                     self.partial_nodes[i].set_child(
@@ -460,7 +469,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
         // later, because this way it's easier in `freeze` to find the correct leaf to freeze --
         // it's always the rightmost leaf on the lowest level.
         self.partial_nodes.push(internal_info);
-        self.freeze(self.partial_nodes.len());
+        self.freeze_previous_leaf();
 
         // Now we set the new child.
         let new_child_index = new_key.0.get_nibble(common_prefix_len);
@@ -480,9 +489,9 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
     }
 
     /// Puts the nodes that will not be changed later in `self.frozen_nodes`.
-    fn freeze(&mut self, num_remaining_partial_nodes: usize) {
+    fn freeze(&mut self, num_remaining_partial_nodes: usize) -> Result<()> {
         self.freeze_previous_leaf();
-        self.freeze_internal_nodes(num_remaining_partial_nodes);
+        self.freeze_internal_nodes(num_remaining_partial_nodes)
     }
 
     /// Freezes the previously added leaf node. It should always be the rightmost leaf node on the
@@ -517,8 +526,19 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
 
     /// Freeze extra internal nodes. Only `num_remaining_nodes` partial internal nodes will be kept
     /// and the ones on the lower level will be frozen.
-    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) {
+    fn freeze_internal_nodes(&mut self, num_remaining_nodes: usize) -> Result<()> {
         while self.partial_nodes.len() > num_remaining_nodes {
+            // After recovering from a crash, the lowest partial node can have just one leaf child,
+            // so the accounts next to it have to come first.
+            ensure!(
+                !self
+                    .partial_nodes
+                    .last()
+                    .expect("This node must exist.")
+                    .has_single_leaf_child(),
+                "Accounts are missing next to the last restored account.",
+            );
+
             let last_node = self.partial_nodes.pop().expect("This node must exist.");
             let (node_key, internal_node) = last_node.into_internal_node::<H>(self.version);
             // Keep the hash of this node before moving it into `frozen_nodes`, so we can update
@@ -553,6 +573,8 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
                 }
             }
         }
+
+        Ok(())
     }
 
     /// Verifies that all accounts that have been added so far (from the leftmost one to
@@ -708,7 +730,7 @@ impl<H: SimpleHasher> JellyfishMerkleRestore<H> {
             self.frozen_nodes
                 .insert_node(root_node_key.clone(), Node::new_null());
         } else {
-            self.freeze(0);
+            self.freeze(0)?;
         }
 
         // A chunk is only verified together with the siblings on the right of its last account:
-- 
2.43.0


From 6943fab1fc029f3925e7cf8ef8fc692749bb485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:36 +0000
Subject: [PATCH 16/16] fix: make version 0 exist when it changes nothing in a
 pre-genesis tree

put_value_set at version 0 on top of a tree restored at PRE_GENESIS_VERSION
returned a root hash, but no root node, when the update had no effect:
version 0 did not exist and version 1 could not be built.
---
 src/tree_cache.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tree_cache.rs b/src/tree_cache.rs
index 6e9555f..ddcfaea 100644
--- a/src/tree_cache.rs
+++ b/src/tree_cache.rs
@@ -317,8 +317,9 @@ where
         // root node and incrementing the version. If we didn't do this, then any set of changes
         // which failed to have an effect on the tree would mean that the *next* set of changes
         // would be faced with a non-existent root node at the version it is expecting, since it's
-        // internally expected that the version increments every time the tree cache is frozen.
-        if self.next_version > 0
+        // internally expected that the version increments every time the tree cache is frozen. This
+        // includes version 0 if it is applied on top of a pre-genesis tree.
+        if (self.next_version > 0 || root_node_key.version() == PRE_GENESIS_VERSION)
             && self.node_cache.is_empty()
             && self.stale_node_index_cache.is_empty()
         {
-- 
2.43.0

