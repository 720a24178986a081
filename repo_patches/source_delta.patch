From 7188bb56b3f817d425ffa78b4a1a52657828c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:04 +0000
Subject: [PATCH 01/13] fix: only return a value from get if the whole key
 matches

A lookup treated a leaf as a match when either key was a prefix of the
other, and panicked (or read garbage in release builds) when the key
ended inside of an extension node.
---
 src/trie_ops.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 7883e47..06cd643 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -311,6 +311,12 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Extension { nibbles, child } => {
                 trace!("Get traversed Extension (nibbles: {:?})", nibbles);
+
+                // A key that ends inside of the extension can not be in the trie.
+                if curr_nibbles.count < nibbles.count {
+                    return None;
+                }
+
                 let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
                 match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
@@ -320,7 +326,7 @@ impl<T: PartialTrie> Node<T> {
             }
             Node::Leaf { nibbles, value } => {
                 trace!("Get traversed Leaf (nibbles: {:?})", nibbles);
-                match nibbles.nibbles_are_identical_up_to_smallest_count(curr_nibbles) {
+                match nibbles == curr_nibbles {
                     false => None,
                     true => Some(value),
                 }
-- 
2.43.0


From 6afc062ad02fa46838cade89eb0434d4eb72eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:46 +0000
Subject: [PATCH 02/13] fix: do not store a key that ends inside of an
 extension at another key

Inserting a key that is a strict prefix of an extension's path put the
value into the branch below the extension, i.e. under a longer key.
---
 src/trie_ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 06cd643..271178c 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -403,7 +403,8 @@ fn insert_into_trie_rec<N: PartialTrie>(
 
             let info = get_pre_and_postfixes_for_existing_and_new_nodes(nibbles, &new_node.nibbles);
 
-            if nibbles.nibbles_are_identical_up_to_smallest_count(&new_node.nibbles) {
+            // Only descend if the new key covers the entire extension.
+            if info.existing_postfix.is_empty() {
                 new_node.truncate_n_nibbles(nibbles.count);
 
                 return insert_into_trie_rec(child, new_node)
-- 
2.43.0


From 88dce9758974a5425667ac2b3a8b12f6305fba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:46 +0000
Subject: [PATCH 03/13] fix: do not delete another key when the key ends inside
 of an extension

Deleting a key that is a strict prefix of an extension's path removed the
value of the branch below the extension, which belongs to a longer key.
---
 src/trie_ops.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 271178c..c5267ce 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -514,8 +514,9 @@ fn delete_intern<N: PartialTrie>(
         } => {
             trace!("Delete traversed Extension (nibbles: {:?})", ext_nibbles);
 
-            ext_nibbles
-                .nibbles_are_identical_up_to_smallest_count(&curr_k)
+            // A key that ends inside of the extension can not be in the trie.
+            (curr_k.count >= ext_nibbles.count
+                && ext_nibbles.nibbles_are_identical_up_to_smallest_count(&curr_k))
                 .then(|| {
                     curr_k.truncate_n_nibbles_front_mut(ext_nibbles.count);
                     delete_intern(child, curr_k).map(|(updated_child, value_deleted)| {
-- 
2.43.0


From 5549ad0bfce93434259fe98d4cb8117ad01e47e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:47 +0000
Subject: [PATCH 04/13] fix: keep branch values and collapse branches correctly
 in delete

Deleting a child of a branch that also holds a value either dropped that
value or panicked. Deleting a branch value that was not there returned
an empty value, and deleting one that was there could leave a branch with
a single entry, which gives a root hash that no Ethereum trie has.
---
 src/partial_trie.rs |  9 +++------
 src/trie_ops.rs     | 41 ++++++++++++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index dca6df6..d5fa669 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -76,12 +76,9 @@ pub trait PartialTrie:
 
     /// Deletes a `Leaf` node or `Branch` value field if it exists.
     ///
-    /// To agree with Ethereum specs, deleting nodes does not result in the trie
-    /// removing nodes that are redundant after deletion. For example, a
-    /// `Branch` node that is completely empty after all of its children are
-    /// deleted is not pruned. Also note:
-    /// - Deleted leaves are replaced with `Empty` nodes.
-    /// - Deleted branch values are replaced with empty `Vec`s.
+    /// To agree with Ethereum specs, nodes that are redundant after deletion are
+    /// collapsed, so the trie is the same as one that never contained the key.
+    /// Returns `None` (and leaves the trie as is) if the key is not in the trie.
     ///
     /// # Panics
     /// If a `Hash` node is traversed, a panic will occur. Since `Hash` nodes
diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index c5267ce..70fb03f 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -469,7 +469,15 @@ fn delete_intern<N: PartialTrie>(
         } // TODO: Find a nice way to get the full key path...
         Node::Branch { children, value } => {
             if curr_k.is_empty() {
-                return Some((branch(children.clone(), Vec::new()), value.clone()));
+                // Nothing to delete if the branch does not hold a value.
+                return (!value.is_empty()).then(|| {
+                    let updated_node = match get_num_non_empty_children(children) {
+                        1 => extension_to_first_non_empty_child(children),
+                        _ => branch(children.clone(), Vec::new()),
+                    };
+
+                    (updated_node, value.clone())
+                });
             }
 
             let nibble = curr_k.pop_next_nibble_front();
@@ -480,7 +488,7 @@ fn delete_intern<N: PartialTrie>(
                     // If the child we recursively called is deleted, then we may need to reduce
                     // this branch to an extension/leaf.
                     let updated_node = match node_is_empty(&updated_child)
-                        && get_num_non_empty_children(children) <= 2
+                        && get_num_non_empty_children(children) + usize::from(!value.is_empty()) <= 2
                     {
                         false => {
                             // Branch stays.
@@ -489,6 +497,8 @@ fn delete_intern<N: PartialTrie>(
                                 try_collapse_if_extension(updated_child);
                             branch(updated_children, value.clone())
                         }
+                        // Only the branch value remains.
+                        true if !value.is_empty() => leaf(Nibbles::default(), value.clone()),
                         true => {
                             let (child_nibble, non_empty_node) =
                                 get_other_non_empty_child_and_nibble_in_two_elem_branch(
@@ -517,14 +527,14 @@ fn delete_intern<N: PartialTrie>(
             // A key that ends inside of the extension can not be in the trie.
             (curr_k.count >= ext_nibbles.count
                 && ext_nibbles.nibbles_are_identical_up_to_smallest_count(&curr_k))
-                .then(|| {
-                    curr_k.truncate_n_nibbles_front_mut(ext_nibbles.count);
-                    delete_intern(child, curr_k).map(|(updated_child, value_deleted)| {
-                        let updated_node = collapse_ext_node_if_needed(ext_nibbles, &updated_child);
-                        (updated_node, value_deleted)
-                    })
+            .then(|| {
+                curr_k.truncate_n_nibbles_front_mut(ext_nibbles.count);
+                delete_intern(child, curr_k).map(|(updated_child, value_deleted)| {
+                    let updated_node = collapse_ext_node_if_needed(ext_nibbles, &updated_child);
+                    (updated_node, value_deleted)
                 })
-                .flatten()
+            })
+            .flatten()
         }
         Node::Leaf { nibbles, value } => {
             trace!("Delete traversed Leaf (nibbles: {:?})", nibbles);
@@ -709,6 +719,19 @@ fn get_other_non_empty_child_and_nibble_in_two_elem_branch<N: PartialTrie>(
         .expect("Expected to find a non-empty node in the branch's children")
 }
 
+/// Used when a branch only has a single child left (and no value). The
+/// extension may be collapsed one level above.
+fn extension_to_first_non_empty_child<N: PartialTrie>(
+    children: &[WrappedNode<N>; 16],
+) -> WrappedNode<N> {
+    children
+        .iter()
+        .enumerate()
+        .find(|(_, c)| !node_is_empty(c))
+        .map(|(n, c)| extension(Nibbles::from_nibble(n as Nibble), c.clone()))
+        .expect("Expected to find a non-empty node in the branch's children")
+}
+
 fn node_is_empty<N: PartialTrie>(node: &WrappedNode<N>) -> bool {
     matches!(node.as_ref(), Node::Empty)
 }
-- 
2.43.0


From fe7e300983edac10bb4362a6933acd67e0ec705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:45 +0000
Subject: [PATCH 05/13] fix: do not share the cached hash between clones of a
 trie

The cache cell was shared by all clones, so a hash that was cached for a
modified clone was then returned for the original trie as well.
---
 src/partial_trie.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index d5fa669..c76c9d4 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -281,12 +281,24 @@ where
 /// A partial trie that lazily caches hashes for each node as needed.
 /// If you are doing frequent hashing of node, you probably want to use this
 /// `Trie` variant.
-#[derive(Clone, Debug, Default, Deserialize, Serialize)]
+#[derive(Debug, Default, Deserialize, Serialize)]
 pub struct HashedPartialTrie {
     pub(crate) node: Node<HashedPartialTrie>,
     pub(crate) hash: Arc<RwLock<Option<H256>>>,
 }
 
+impl Clone for HashedPartialTrie {
+    fn clone(&self) -> Self {
+        // Clones can diverge from each other, so the cache itself can not be shared.
+        let hash = *self.hash.read();
+
+        Self {
+            node: self.node.clone(),
+            hash: Arc::new(RwLock::new(hash)),
+        }
+    }
+}
+
 impl_from_for_trie_type!(HashedPartialTrie);
 
 impl HashedPartialTrie {
-- 
2.43.0


From 19f867c583dc2f1f4bb0d375df264f88059ad702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:45 +0000
Subject: [PATCH 06/13] fix: drop the cached hash whenever the node of a trie
 can change

A mutable reference to the node could be obtained without clearing the
cached hash, and a panic in the middle of extending a trie left the old
hash in place although some of the entries had already been inserted.
---
 src/partial_trie.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/partial_trie.rs b/src/partial_trie.rs
index c76c9d4..c8e1fef 100644
--- a/src/partial_trie.rs
+++ b/src/partial_trie.rs
@@ -340,8 +340,9 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes);
+        // Cleared first, since some nodes may already be in the trie if we panic.
         self.set_hash(None);
+        self.node.trie_extend(nodes);
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -405,6 +406,8 @@ impl Deref for HashedPartialTrie {
 
 impl DerefMut for HashedPartialTrie {
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The node can be changed through the returned reference.
+        self.set_hash(None);
         &mut self.node
     }
 }
-- 
2.43.0


From ae29bb2cb8a7f876dce2db3a1df26d83d7bf8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:45 +0000
Subject: [PATCH 07/13] fix: reset all nodes between the subsets of a trie

Only the nodes right below the root were reset, so a subset also kept
nodes that only the keys of an earlier subset needed.
---
 src/trie_subsets.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index aa5f805..7ce0d24 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -330,14 +330,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
         TrackedNodeIntern::Branch(ref mut children) => {
-            children.iter_mut().for_each(|c| c.info.reset())
-        }
-        TrackedNodeIntern::Extension(ref mut child) => child.info.reset(),
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => (),
     }
 }
 
-- 
2.43.0


From d9d803f364b2d4d22a114c0917f07b821b8fd9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:45 +0000
Subject: [PATCH 08/13] fix: do not panic on subset keys that end inside of an
 extension

Keys that are not in the trie are not an error, but such a key panicked
(or marked unrelated nodes in release builds).
---
 src/trie_subsets.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trie_subsets.rs b/src/trie_subsets.rs
index 7ce0d24..06da94a 100644
--- a/src/trie_subsets.rs
+++ b/src/trie_subsets.rs
@@ -284,6 +284,12 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
         }
         TrackedNodeIntern::Extension(child) => {
             let nibbles = trie.info.get_nibbles_expected();
+
+            // A key that ends inside of the extension does not visit anything below it.
+            if curr_nibbles.count < nibbles.count {
+                return Ok(());
+            }
+
             let r = curr_nibbles.pop_nibbles_front(nibbles.count);
 
             match r.nibbles_are_identical_up_to_smallest_count(nibbles) {
-- 
2.43.0


From 3e710bd7a58abf021f2d613d140f41b811c899c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:45 +0000
Subject: [PATCH 09/13] fix: use the size of the integer type when converting
 it to a value

The buffer was always 32 bytes long, which panicked for U128 and U512
(and gave a wrong value for U128 in release builds).
---
 src/trie_ops.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trie_ops.rs b/src/trie_ops.rs
index 70fb03f..7526391 100644
--- a/src/trie_ops.rs
+++ b/src/trie_ops.rs
@@ -56,10 +56,7 @@ macro_rules! impl_eth_type_from_for_val_variant {
     ($type:ty) => {
         impl From<$type> for ValOrHash {
             fn from(v: $type) -> Self {
-                let size = size_of::<Self>();
-
-                let mut buf = Vec::with_capacity(size);
-                buf.resize(32, 0);
+                let mut buf = vec![0; size_of::<$type>()];
                 v.to_big_endian(&mut buf);
                 ValOrHash::Val(buf)
             }
-- 
2.43.0


From b5c30167cf42a4633133399022b360f05f798084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 10/13] fix: panic on out of range nibble accesses in all build
 profiles

The documented panics relied on integer overflow checks, so in release
builds out of range accesses silently returned wrong nibbles.
---
 src/nibbles.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/nibbles.rs b/src/nibbles.rs
index 730d924..0058cd7 100644
--- a/src/nibbles.rs
+++ b/src/nibbles.rs
@@ -260,6 +260,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `idx` is out of range.
     pub fn get_nibble(&self, idx: usize) -> Nibble {
+        assert!(idx < self.count);
+
         let nib_idx = self.count - idx - 1;
         let byte = self.packed.byte(nib_idx / 2);
 
@@ -285,6 +287,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `Nibbles` is empty.
     pub fn pop_next_nibble_back(&mut self) -> Nibble {
+        assert!(!self.is_empty());
+
         let n = self.get_nibble(self.count - 1);
         self.truncate_n_nibbles_back_mut(1);
 
@@ -314,6 +318,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `n` is larger than the number of nibbles contained.
     pub fn pop_nibbles_back(&mut self, n: usize) -> Nibbles {
+        assert!(n <= self.count);
+
         let r = self
             .get_nibble_range((self.count - n)..self.count)
             .reverse();
@@ -368,6 +374,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if `range.end` is outside of the current `Nibbles`.
     pub fn get_nibble_range(&self, range: Range<usize>) -> Nibbles {
+        assert!(range.start <= range.end && range.end <= self.count);
+
         let range_count = range.end - range.start;
 
         let shift_amt = (self.count - range.end) * 4;
@@ -456,6 +464,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx(&self, idx: usize) -> (Nibbles, Nibbles) {
+        assert!(idx <= self.count);
+
         let post_count = self.count - idx;
         let post_mask = create_mask_of_1s(post_count * 4);
 
@@ -479,6 +489,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_prefix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let shift_amt = (self.count - idx) * 4;
         let pre_mask = create_mask_of_1s(idx * 4) << shift_amt;
 
@@ -493,6 +505,8 @@ impl Nibbles {
     /// # Panics
     /// Panics if the `idx` is out of range.
     pub fn split_at_idx_postfix(&self, idx: usize) -> Nibbles {
+        assert!(idx <= self.count);
+
         let postfix_count = self.count - idx;
         let mask = create_mask_of_1s(postfix_count * 4);
 
-- 
2.43.0


From f586a0a6a887b7f738b8761d0dc47ae6d6c42f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:09 +0000
Subject: [PATCH 11/13] fix: find the actual differences between two tries

The diff stopped at the root if both root nodes looked alike, hit an
unreachable!() if they did not, and never reported branches that only
differ in their value.
---
 src/debug_tools/diff.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index b043d72..dcd6a98 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -55,9 +55,9 @@ impl Display for TrieDiff {
 
 #[derive(Copy, Clone, Debug)]
 enum DiffDetectionState {
-    NodeTypesDiffer = 0, // Also implies that hashes differ.
+    NoDiffDetected = 0,
     HashDiffDetected,
-    NoDiffDetected,
+    NodeTypesDiffer, // Also implies that hashes differ.
 }
 
 impl DiffDetectionState {
@@ -297,7 +297,7 @@ fn find_latest_diff_point_between_tries_rec(
 
     // Note that differences in a node's `value` will be picked up by a hash
     // mismatch.
-    if (a_type, a_key_piece) == (b_type, b_key_piece) {
+    if (a_type, a_key_piece) != (b_type, b_key_piece) {
         depth_state.try_update_longest_divergence_key_node(state);
         DiffDetectionState::NodeTypesDiffer
     } else {
@@ -336,7 +336,7 @@ fn find_latest_diff_point_between_tries_rec(
                         most_significant_diff_found.pick_most_significant_state(&res);
                 }
 
-                if matches!(
+                if !matches!(
                     most_significant_diff_found,
                     DiffDetectionState::NoDiffDetected
                 ) {
-- 
2.43.0


From 67d489c546f50bee35ec0182679f1c3629308856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:35 +0000
Subject: [PATCH 12/13] fix: report the depth of a difference between two tries

The depth was always reported as zero.
---
 src/debug_tools/diff.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/debug_tools/diff.rs b/src/debug_tools/diff.rs
index dcd6a98..2e32247 100644
--- a/src/debug_tools/diff.rs
+++ b/src/debug_tools/diff.rs
@@ -90,12 +90,13 @@ impl DiffPoint {
         child_b: &HashedPartialTrie,
         parent_k: Nibbles,
         path: NodePath,
+        depth: usize,
     ) -> Self {
         let a_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_a));
         let b_key = parent_k.merge_nibbles(&get_key_piece_from_node(child_b));
 
         DiffPoint {
-            depth: 0,
+            depth,
             path,
             key: parent_k,
             a_info: NodeInfo::new(child_a, a_key, get_value_from_node(child_a).cloned()),
@@ -196,6 +197,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -206,6 +208,7 @@ impl DepthNodeDiffState {
             state.a,
             state.b,
             state.curr_path.clone(),
+            state.curr_depth,
         );
     }
 
@@ -215,12 +218,13 @@ impl DepthNodeDiffState {
         child_a: &HashedPartialTrie,
         child_b: &HashedPartialTrie,
         path: NodePath,
+        depth: usize,
     ) {
         if field
             .as_ref()
             .map_or(true, |d_point| d_point.key.count < parent_k.count)
         {
-            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path));
+            *field = Some(DiffPoint::new(child_a, child_b, *parent_k, path, depth));
         }
     }
 }
-- 
2.43.0


From 32e8335d8602ccbb7f2149acbaf18142f479755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:58:40 +0000
Subject: [PATCH 13/13] fix: follow the key when querying the path of a trie

The query did not consume the nibbles of extensions (so it then looked at
the wrong child), did not stop at extensions that do not match, panicked
on keys that end at a branch, and reported an empty slot as found.
---
 src/debug_tools/common.rs | 14 +++++++++-----
 src/debug_tools/query.rs  | 30 +++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/debug_tools/common.rs b/src/debug_tools/common.rs
index b63bba9..06cdb9a 100644
--- a/src/debug_tools/common.rs
+++ b/src/debug_tools/common.rs
@@ -10,7 +10,8 @@ use crate::{
 pub(super) enum PathSegment {
     Empty,
     Hash,
-    Branch(Nibble),
+    /// `None` if the key ends at the branch.
+    Branch(Option<Nibble>),
     Extension(Nibbles),
     Leaf(Nibbles),
 }
@@ -20,7 +21,8 @@ impl Display for PathSegment {
         match self {
             PathSegment::Empty => write!(f, "Empty"),
             PathSegment::Hash => write!(f, "Hash"),
-            PathSegment::Branch(nib) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(Some(nib)) => write!(f, "Branch({})", nib),
+            PathSegment::Branch(None) => write!(f, "Branch()"),
             PathSegment::Extension(nibs) => write!(f, "Extension({})", nibs),
             PathSegment::Leaf(nibs) => write!(f, "Leaf({})", nibs),
         }
@@ -41,7 +43,7 @@ impl PathSegment {
     pub(super) fn get_key_piece_from_seg_if_present(&self) -> Option<Nibbles> {
         match self {
             PathSegment::Empty | PathSegment::Hash => None,
-            PathSegment::Branch(nib) => Some(Nibbles::from_nibble(*nib)),
+            PathSegment::Branch(nib) => nib.map(Nibbles::from_nibble),
             PathSegment::Extension(nibs) | PathSegment::Leaf(nibs) => Some(*nibs),
         }
     }
@@ -54,7 +56,9 @@ pub(super) fn get_segment_from_node_and_key_piece<T: PartialTrie>(
     match TrieNodeType::from(n) {
         TrieNodeType::Empty => PathSegment::Empty,
         TrieNodeType::Hash => PathSegment::Hash,
-        TrieNodeType::Branch => PathSegment::Branch(k_piece.get_nibble(0)),
+        TrieNodeType::Branch => {
+            PathSegment::Branch((!k_piece.is_empty()).then(|| k_piece.get_nibble(0)))
+        }
         TrieNodeType::Extension => PathSegment::Extension(*k_piece),
         TrieNodeType::Leaf => PathSegment::Leaf(*k_piece),
     }
@@ -73,7 +77,7 @@ pub(super) fn get_key_piece_from_node_pulling_from_key_for_branches<T: PartialTr
 ) -> Nibbles {
     match n {
         Node::Empty | Node::Hash(_) => Nibbles::default(),
-        Node::Branch { .. } => curr_key.get_next_nibbles(1),
+        Node::Branch { .. } => curr_key.get_next_nibbles(curr_key.count.min(1)),
         Node::Extension { nibbles, child: _ } | Node::Leaf { nibbles, value: _ } => *nibbles,
     }
 }
diff --git a/src/debug_tools/query.rs b/src/debug_tools/query.rs
index e75c2ed..74947ce 100644
--- a/src/debug_tools/query.rs
+++ b/src/debug_tools/query.rs
@@ -276,23 +276,39 @@ fn get_path_from_query_rec<T: PartialTrie>(
         .push(ExtraNodeSegmentInfo::from_node(node));
 
     match node {
-        Node::Empty | Node::Hash(_) => (),
+        // There is no node for the key.
+        Node::Empty => return,
+        Node::Hash(_) => (),
         Node::Branch { children, value: _ } => {
-            let nib = curr_key.pop_next_nibble_front();
+            // Otherwise the key ends at this branch.
+            if !curr_key.is_empty() {
+                let nib = curr_key.pop_next_nibble_front();
 
-            get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
+                return get_path_from_query_rec(&children[nib as usize], curr_key, query_out);
+            }
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
+            let curr_key_next_nibs =
+                get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
+
+            // The key leaves the trie if it does not cover the entire extension.
+            if *nibbles == curr_key_next_nibs {
+                curr_key.pop_nibbles_front(nibbles.count);
+                get_path_from_query_rec(child, curr_key, query_out);
+            }
+
+            return;
         }
         Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
-            if *nibbles == curr_key_next_nibs {
-                curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+            // The key leaves the trie if it does not cover the entire leaf.
+            if *nibbles != curr_key_next_nibs {
+                return;
             }
+
+            curr_key.pop_nibbles_front(curr_key_next_nibs.count);
         }
     }
 
-- 
2.43.0

