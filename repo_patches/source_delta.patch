From f02c5210e67ef8f464c6c4bfa6bed0e883ce763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:13 +0000
Subject: [PATCH 01/48] fix: keep the cached hash of earlier trie clones intact
 on mutation

Clones of a HashedPartialTrie share the hash cache of the root. Mutating one
clone cleared the shared cache, and a later hash of either was then returned
for both. Also drop the cache when extend fails half way.
---
 mpt_trie/src/partial_trie.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mpt_trie/src/partial_trie.rs b/mpt_trie/src/partial_trie.rs
index e8f1ebe..61ab335 100644
--- a/mpt_trie/src/partial_trie.rs
+++ b/mpt_trie/src/partial_trie.rs
@@ -347,6 +347,14 @@ impl HashedPartialTrie {
     pub(crate) fn set_hash(&self, v: Option<H256>) {
         *self.hash.write() = v;
     }
+
+    /// Drops the cached hash after a mutation.
+    ///
+    /// Clones share the cache, and the ones taken before the mutation still
+    /// have the old contents, so detach from them instead of clearing it.
+    fn invalidate_hash(&mut self) {
+        self.hash = Arc::new(RwLock::new(None));
+    }
 }
 
 impl PartialTrie for HashedPartialTrie {
@@ -372,7 +380,7 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
     {
         self.node.trie_insert(k, v)?;
-        self.set_hash(None);
+        self.invalidate_hash();
         Ok(())
     }
 
@@ -382,9 +390,11 @@ impl PartialTrie for HashedPartialTrie {
         V: Into<crate::trie_ops::ValOrHash>,
         I: IntoIterator<Item = (K, V)>,
     {
-        self.node.trie_extend(nodes)?;
-        self.set_hash(None);
-        Ok(())
+        // Some of the nodes may have been inserted even on an error.
+        let res = self.node.trie_extend(nodes);
+        self.invalidate_hash();
+
+        res
     }
 
     fn get<K>(&self, k: K) -> Option<&[u8]>
@@ -399,7 +409,7 @@ impl PartialTrie for HashedPartialTrie {
         K: Into<crate::nibbles::Nibbles>,
     {
         let res = self.node.trie_delete(k, self.strategy);
-        self.set_hash(None);
+        self.invalidate_hash();
 
         res
     }
-- 
2.43.0


From 38888198b28d9f17d82ca9e145fc81867af91c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 02/48] fix: follow the key through extension nodes in trie
 path queries

The debug query did not consume the nibbles of an extension node, so it went
on with the wrong key below it, and it reported a key as found whenever the
key was used up, also on an empty slot.
---
 mpt_trie/src/debug_tools/query.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mpt_trie/src/debug_tools/query.rs b/mpt_trie/src/debug_tools/query.rs
index dcfff39..1e1bb2f 100644
--- a/mpt_trie/src/debug_tools/query.rs
+++ b/mpt_trie/src/debug_tools/query.rs
@@ -295,21 +295,17 @@ fn get_path_from_query_rec<T: PartialTrie>(
             get_path_from_query_rec(&children[nib as usize], curr_key, query_out)
         }
         Node::Extension { nibbles, child } => {
-            get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
-            get_path_from_query_rec(child, curr_key, query_out);
-        }
-        Node::Leaf { nibbles, value: _ } => {
             let curr_key_next_nibs =
                 get_next_nibbles_from_node_key_clamped(curr_key, nibbles.count);
 
             if *nibbles == curr_key_next_nibs {
                 curr_key.pop_nibbles_front(curr_key_next_nibs.count);
+                get_path_from_query_rec(child, curr_key, query_out);
             }
         }
-    }
-
-    if curr_key.is_empty() {
-        query_out.node_found = true;
+        Node::Leaf { nibbles, value: _ } => {
+            query_out.node_found = nibbles == curr_key;
+        }
     }
 }
 
-- 
2.43.0


From eee5a0cf3d7dd4b64edb8afb3c24d9a3cdb50206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 03/48] fix: forget the root's mark between subsets of one trie

create_trie_subsets never cleared the mark of a branch or extension at the
root, so a later subset that needs nothing of the trie was not hashed out.
---
 mpt_trie/src/trie_subsets.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index eadb6b3..ba23adc 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -373,18 +373,14 @@ fn create_partial_trie_subset_from_tracked_trie<N: PartialTrie>(
 }
 
 fn reset_tracked_trie_state<N: PartialTrie>(tracked_node: &mut TrackedNode<N>) {
+    tracked_node.info.reset();
+
     match tracked_node.node {
-        TrackedNodeIntern::Branch(ref mut children) => children.iter_mut().for_each(|c| {
-            c.info.reset();
-            reset_tracked_trie_state(c);
-        }),
-        TrackedNodeIntern::Extension(ref mut child) => {
-            child.info.reset();
-            reset_tracked_trie_state(child);
-        }
-        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {
-            tracked_node.info.reset()
+        TrackedNodeIntern::Branch(ref mut children) => {
+            children.iter_mut().for_each(reset_tracked_trie_state)
         }
+        TrackedNodeIntern::Extension(ref mut child) => reset_tracked_trie_state(child),
+        TrackedNodeIntern::Empty | TrackedNodeIntern::Hash | TrackedNodeIntern::Leaf => {}
     }
 }
 
-- 
2.43.0


From e3334d8900bdec8ee980bba35f360fc897278b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 04/48] fix: report the whole key when a subset runs into a
 hash node

The error was built from what was left of the key, which made the query for
its text panic instead.
---
 mpt_trie/src/trie_subsets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index ba23adc..2cda010 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -254,8 +254,9 @@ where
     N: PartialTrie,
     K: Into<Nibbles>,
 {
-    for mut k in keys_involved.map(|k| k.into()) {
-        mark_nodes_that_are_needed(tracked_trie, &mut k).map_err(|_| {
+    for k in keys_involved.map(|k| k.into()) {
+        let mut nibbles_left = k;
+        mark_nodes_that_are_needed(tracked_trie, &mut nibbles_left).map_err(|_| {
             // We need to unwind back to this callsite in order to produce the actual error.
             let query = DebugQueryParamsBuilder::default()
                 .include_node_specific_values(true)
-- 
2.43.0


From 7f79106618b90251bc83f70eec0dfb08eae86c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 05/48] fix: rebuild tries from proofs with embedded nodes

A node shorter than 32 bytes is embedded in its parent as a list, which the
proof builder failed to decode.
---
 mpt_trie/src/builder.rs | 43 +++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/mpt_trie/src/builder.rs b/mpt_trie/src/builder.rs
index 43aebb7..aab88c7 100644
--- a/mpt_trie/src/builder.rs
+++ b/mpt_trie/src/builder.rs
@@ -5,7 +5,7 @@ use std::sync::Arc;
 
 use ethereum_types::H256;
 use keccak_hash::keccak;
-use rlp::{Prototype, Rlp};
+use rlp::{Prototype, Rlp, RlpStream};
 use zk_evm_common::EMPTY_TRIE_HASH;
 
 use super::{
@@ -46,16 +46,12 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
         for node in proof {
             let rlp = Rlp::new(&node);
             match rlp.prototype().expect("rlp data is valid") {
-                Prototype::List(2) => {
-                    self.insert_short_node_variants(rlp.as_list().expect("valid list"))
-                }
+                Prototype::List(2) => self.insert_short_node_variants(&rlp),
                 Prototype::List(17) => {
                     for i in 0..16 {
                         if let Ok(entry) = rlp.at(i) {
                             if let Prototype::List(2) = entry.prototype().expect("valid list") {
-                                self.insert_short_node_variants(
-                                    entry.as_list().expect("valid list"),
-                                )
+                                self.insert_short_node_variants(&entry)
                             }
                         }
                     }
@@ -70,16 +66,21 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
         construct_partial_trie(self.root, &self.nodes)
     }
 
-    fn insert_short_node_variants(&mut self, bytes: Vec<Vec<u8>>) {
+    fn insert_short_node_variants(&mut self, rlp: &Rlp) {
+        let bytes = decode_items(rlp.as_raw());
+        let payload_is_list = rlp.at(1).expect("valid list").is_list();
         let is_leaf = is_leaf_node(&bytes);
         let mut nibbles = Nibbles::from_bytes_be(&bytes[0][..]).unwrap();
         while !nibbles.is_empty() {
             nibbles.pop_next_nibble_front();
-            let node = rlp::encode_list::<Vec<u8>, _>(&[
-                nibbles.to_hex_prefix_encoding(is_leaf).to_vec(),
-                bytes[1].clone(),
-            ]);
-            self.nodes.entry(keccak(&node)).or_insert(node.to_vec());
+            let mut stream = RlpStream::new_list(2);
+            stream.append(&nibbles.to_hex_prefix_encoding(is_leaf).to_vec());
+            match payload_is_list {
+                true => stream.append_raw(&bytes[1], 1),
+                false => stream.append(&bytes[1]),
+            };
+            let node = stream.out().to_vec();
+            self.nodes.entry(keccak(&node)).or_insert(node);
         }
     }
 }
@@ -87,7 +88,7 @@ impl<T: PartialTrie> PartialTrieBuilder<T> {
 /// Constructs a partial trie from a root hash and a collection of nodes.
 fn construct_partial_trie<T: PartialTrie>(hash: H256, nodes: &HashMap<H256, Vec<u8>>) -> T {
     let bytes = match nodes.get(&hash) {
-        Some(value) => rlp::decode_list::<Vec<u8>>(value),
+        Some(value) => decode_items(value),
         None if [H256::zero(), EMPTY_TRIE_HASH].contains(&hash) => return T::default(),
         None => return T::new(Node::Hash(hash)),
     };
@@ -95,6 +96,18 @@ fn construct_partial_trie<T: PartialTrie>(hash: H256, nodes: &HashMap<H256, Vec<
     decode_node(bytes, nodes)
 }
 
+/// Splits the encoding of a node into its items. Short child nodes are embedded
+/// in their parent as lists, and are kept encoded.
+fn decode_items(bytes: &[u8]) -> Vec<Vec<u8>> {
+    Rlp::new(bytes)
+        .iter()
+        .map(|item| match item.is_list() {
+            true => item.as_raw().to_vec(),
+            false => item.data().expect("trusted rlp should be valid").to_vec(),
+        })
+        .collect()
+}
+
 fn decode_node<T: PartialTrie>(bytes: Vec<Vec<u8>>, nodes: &HashMap<H256, Vec<u8>>) -> T {
     let node = match bytes.len() {
         17 => parse_branch_node(bytes, nodes),
@@ -171,7 +184,7 @@ fn parse_leaf_node<T: PartialTrie>(bytes: Vec<Vec<u8>>) -> Node<T> {
 /// Parses a child node from the given bytes.
 fn parse_child_node<T: PartialTrie>(bytes: &[u8], nodes: &HashMap<H256, Vec<u8>>) -> T {
     match bytes.len() {
-        x if x < 32 => decode_node(rlp::decode_list::<Vec<u8>>(bytes), nodes),
+        x if x < 32 => decode_node(decode_items(bytes), nodes),
         _ => construct_partial_trie(H256::from_slice(bytes), nodes),
     }
 }
-- 
2.43.0


From b7637add0297cb8c489bbdf3ab922353431cb79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 06/48] fix: do not panic when refusing to collapse into a hash
 node

The error for an extension that would collapse into a hash node merged the
rest of the deleted key with the extension's, which can exceed 64 nibbles.
---
 mpt_trie/src/trie_ops.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/mpt_trie/src/trie_ops.rs b/mpt_trie/src/trie_ops.rs
index c7cee9b..e35fc05 100644
--- a/mpt_trie/src/trie_ops.rs
+++ b/mpt_trie/src/trie_ops.rs
@@ -395,8 +395,7 @@ impl<T: PartialTrie> Node<T> {
                 // Final check at the root if we have an extension node. While this check also
                 // exists as we recursively traverse down the trie, it can not perform this
                 // check on the root node.
-                let wrapped_node =
-                    try_collapse_if_extension(updated_root, &Nibbles::default(), strategy)?;
+                let wrapped_node = try_collapse_if_extension(updated_root, strategy)?;
                 let node_ref: &Node<T> = &wrapped_node;
                 *self = node_ref.clone();
 
@@ -553,7 +552,7 @@ fn delete_intern<N: PartialTrie>(
 
                             let mut updated_children = children.clone();
                             updated_children[nibble as usize] =
-                                try_collapse_if_extension(updated_child, &curr_k, strategy)?;
+                                try_collapse_if_extension(updated_child, strategy)?;
                             branch(updated_children, value.clone())
                         }
                         true => {
@@ -590,12 +589,8 @@ fn delete_intern<N: PartialTrie>(
 
                     delete_intern(child, curr_k, strategy).and_then(|res| {
                         res.map_or(Ok(None), |(updated_child, value_deleted)| {
-                            let updated_node = collapse_ext_node_if_needed(
-                                ext_nibbles,
-                                &updated_child,
-                                &curr_k,
-                                strategy,
-                            )?;
+                            let updated_node =
+                                collapse_ext_node_if_needed(ext_nibbles, &updated_child, strategy)?;
                             Ok(Some((updated_node, value_deleted)))
                         })
                     })
@@ -614,13 +609,10 @@ fn delete_intern<N: PartialTrie>(
 
 fn try_collapse_if_extension<N: PartialTrie>(
     node: WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     match node.as_ref() {
-        Node::Extension { nibbles, child } => {
-            collapse_ext_node_if_needed(nibbles, child, curr_key, strategy)
-        }
+        Node::Extension { nibbles, child } => collapse_ext_node_if_needed(nibbles, child, strategy),
         _ => Ok(node),
     }
 }
@@ -652,7 +644,6 @@ fn try_collapse_if_extension<N: PartialTrie>(
 fn collapse_ext_node_if_needed<N: PartialTrie>(
     ext_nibbles: &Nibbles,
     child: &WrappedNode<N>,
-    curr_key: &Nibbles,
     strategy: OnOrphanedHashNode,
 ) -> TrieOpResult<WrappedNode<N>> {
     trace!(
@@ -677,7 +668,7 @@ fn collapse_ext_node_if_needed<N: PartialTrie>(
         Node::Hash(h) => match strategy {
             OnOrphanedHashNode::CollapseToExtension => Ok(extension(*ext_nibbles, child.clone())),
             OnOrphanedHashNode::Reject => Err(TrieOpError::ExtensionCollapsedIntoHashError(
-                curr_key.merge_nibbles(ext_nibbles),
+                *ext_nibbles,
                 *h,
             )),
         },
-- 
2.43.0


From 6355cade3c5e2a0c554a8c71e57e360fa124e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 07/48] fix: return zero for keys absent from the SMT

`Smt::get` hit `unreachable!()` whenever the path of an absent key ended in
an empty node, in particular for every key of an empty tree.
---
 smt_trie/src/smt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index d2236ae..e81eb83 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -156,7 +156,9 @@ impl<D: Db> Smt<D> {
                 level += 1;
             }
         }
-        unreachable!()
+
+        // We reached an empty node: the key is not in the SMT.
+        U256::ZERO
     }
 
     /// Set the value associated with the key in the SMT.
-- 
2.43.0


From 5ebc730f5bc7e062bfcb6e48d75fd91825fb8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 08/48] fix: keep SMT keys sharing all but their last bits
 apart

Shifting a 64-bit limb of the key by 64 overflows for leaves at full depth,
which is where keys differing only in one of their last four bits end up.
---
 smt_trie/src/smt.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/smt_trie/src/smt.rs b/smt_trie/src/smt.rs
index e81eb83..0eb084d 100644
--- a/smt_trie/src/smt.rs
+++ b/smt_trie/src/smt.rs
@@ -41,7 +41,7 @@ impl Key {
     }
 
     pub fn join(bits: Bits, rem_key: Self) -> Self {
-        let mut n = [0; 4];
+        let mut n = [0u32; 4];
         let mut accs = [0; 4];
         for i in 0..bits.count {
             if bits.get_bit(i) {
@@ -50,7 +50,12 @@ impl Key {
             n[i % 4] += 1;
         }
         let key = std::array::from_fn(|i| {
-            F::from_canonical_u64((rem_key.0[i].to_canonical_u64() << n[i]) | accs[i])
+            // `n[i]` is 64 when there is nothing left of the key at a full-depth leaf.
+            let rem = rem_key.0[i]
+                .to_canonical_u64()
+                .checked_shl(n[i])
+                .unwrap_or_default();
+            F::from_canonical_u64(rem | accs[i])
         });
         Key(key)
     }
@@ -63,7 +68,7 @@ impl Key {
             if full_levels * 4 + i < nbits {
                 n += 1;
             }
-            auxk[i] >>= n;
+            auxk[i] = auxk[i].checked_shr(n as u32).unwrap_or_default();
         }
         Key(auxk.map(F::from_canonical_u64))
     }
-- 
2.43.0


From 09df5b178465995093d2ce09b8953f3d28301938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:01 +0000
Subject: [PATCH 09/48] hooks: expose crate-private items to verification
 harnesses under cfg(verif_hooks)

---
 .../src/fixed_recursive_verifier.rs           |   4 +
 evm_arithmetization/src/lib.rs                |   4 +
 .../src/verif_hooks/circuits.rs               | 241 ++++++++
 evm_arithmetization/src/verif_hooks/fields.rs | 218 +++++++
 evm_arithmetization/src/verif_hooks/mod.rs    |  12 +
 evm_arithmetization/src/verif_hooks/tables.rs | 578 ++++++++++++++++++
 evm_arithmetization/src/verif_hooks/values.rs | 117 ++++
 evm_arithmetization/src/verif_hooks/vm.rs     | 475 ++++++++++++++
 8 files changed, 1649 insertions(+)
 create mode 100644 evm_arithmetization/src/verif_hooks/circuits.rs
 create mode 100644 evm_arithmetization/src/verif_hooks/fields.rs
 create mode 100644 evm_arithmetization/src/verif_hooks/mod.rs
 create mode 100644 evm_arithmetization/src/verif_hooks/tables.rs
 create mode 100644 evm_arithmetization/src/verif_hooks/values.rs
 create mode 100644 evm_arithmetization/src/verif_hooks/vm.rs

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 54b47a8..642e15a 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -3328,3 +3328,7 @@ pub mod testing {
         }
     }
 }
+
+#[cfg(verif_hooks)]
+#[path = "verif_hooks/circuits.rs"]
+pub mod verif_circuits;
diff --git a/evm_arithmetization/src/lib.rs b/evm_arithmetization/src/lib.rs
index 9bc6021..4bd975e 100644
--- a/evm_arithmetization/src/lib.rs
+++ b/evm_arithmetization/src/lib.rs
@@ -252,6 +252,7 @@
 #![allow(clippy::too_many_arguments)]
 #![allow(clippy::field_reassign_with_default)]
 #![feature(let_chains)]
+#![allow(unexpected_cfgs)]
 
 zk_evm_common::check_chain_features!();
 
@@ -295,3 +296,6 @@ pub use starky::config::StarkConfig;
 
 pub use crate::all_stark::{AllStark, NUM_TABLES};
 pub use crate::generation::segments::{GenerationSegmentData, SegmentDataIterator};
+
+#[cfg(verif_hooks)]
+pub mod verif_hooks;
diff --git a/evm_arithmetization/src/verif_hooks/circuits.rs b/evm_arithmetization/src/verif_hooks/circuits.rs
new file mode 100644
index 0000000..c7b1aac
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks/circuits.rs
@@ -0,0 +1,241 @@
+//! The connections between the proofs that get aggregated, without the proofs.
+//! This is a child of the module whose private functions it calls.
+
+use plonky2::field::goldilocks_field::GoldilocksField;
+use plonky2::iop::generator::generate_partial_witness;
+use plonky2::iop::witness::Witness;
+use plonky2::plonk::config::PoseidonGoldilocksConfig;
+
+use super::*;
+
+const D: usize = 2;
+type F = GoldilocksField;
+type C = PoseidonGoldilocksConfig;
+type A = AllRecursiveCircuits<F, C, D>;
+
+/// Number of elements of the public values.
+pub const PV_SIZE: usize = 2 * TrieRootsTarget::SIZE
+    + BurnAddrTarget::get_size()
+    + BlockMetadataTarget::SIZE
+    + BlockHashesTarget::SIZE
+    + ExtraBlockDataTarget::SIZE
+    + 2 * RegistersDataTarget::SIZE
+    + 2 * MemCapTarget::SIZE;
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Link {
+    /// Extra data of the whole, of the left and of the right part.
+    ExtraData,
+    /// A block and its parent; the flag tells whether there is a parent.
+    Blocks,
+    /// First and last registers of a batch.
+    InitialFinalSegment,
+    /// The first memory of a batch.
+    InitialMemory,
+    /// Timestamps of the left and of the right block.
+    Timestamps,
+    /// Final values and the public values of the last block.
+    Final,
+    /// `select` between two sets by the flag; the third is the result.
+    Select,
+    /// The parts compared on a condition, for equality.
+    ConditionalRegisters,
+    ConditionalMemory,
+    ConditionalTries,
+    ConditionalExtraData,
+    ConditionalBlockMetadata,
+    ConditionalBlockHashes,
+    /// The parts connected.
+    Registers,
+    Memory,
+    Tries,
+    ExtraDataParts,
+    BlockMetadata,
+    BlockHashes,
+}
+
+/// A circuit made of one kind of link.
+pub struct LinkCircuit {
+    data: CircuitData<F, C, D>,
+    sets: Vec<Vec<Target>>,
+    flag: BoolTarget,
+}
+
+fn connect_all(b: &mut CircuitBuilder<F, D>, x: &PublicValuesTarget, y: &PublicValuesTarget) {
+    TrieRootsTarget::connect(b, x.trie_roots_before, y.trie_roots_before);
+    TrieRootsTarget::connect(b, x.trie_roots_after, y.trie_roots_after);
+    BlockMetadataTarget::connect(b, x.block_metadata, y.block_metadata);
+    BlockHashesTarget::connect(b, x.block_hashes, y.block_hashes);
+    ExtraBlockDataTarget::connect(b, x.extra_block_data, y.extra_block_data);
+    RegistersDataTarget::connect(b, x.registers_before.clone(), y.registers_before.clone());
+    RegistersDataTarget::connect(b, x.registers_after.clone(), y.registers_after.clone());
+    MemCapTarget::connect(b, x.mem_before.clone(), y.mem_before.clone());
+    MemCapTarget::connect(b, x.mem_after.clone(), y.mem_after.clone());
+}
+
+impl LinkCircuit {
+    pub fn new(link: Link) -> Self {
+        let mut builder = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
+        let b = &mut builder;
+        let flag = b.add_virtual_bool_target_safe();
+        let n = match link {
+            Link::ExtraData | Link::Select => 3,
+            Link::InitialFinalSegment | Link::InitialMemory => 1,
+            _ => 2,
+        };
+        let mut sets = vec![];
+        let mut pv = vec![];
+        for i in 0..n {
+            if link == Link::Final && i == 0 {
+                sets.push(b.add_virtual_targets(FinalPublicValuesTarget::SIZE));
+                continue;
+            }
+            let t = b.add_virtual_targets(PV_SIZE);
+            pv.push(PublicValuesTarget::from_public_inputs(&t));
+            sets.push(t);
+        }
+        match link {
+            Link::ExtraData => A::connect_extra_public_values(
+                b,
+                &pv[0].extra_block_data,
+                &pv[1].extra_block_data,
+                &pv[2].extra_block_data,
+            ),
+            Link::Blocks => A::connect_block_proof(b, flag, &pv[0], &pv[1]),
+            Link::InitialFinalSegment => A::connect_initial_final_segment(b, &pv[0]),
+            Link::InitialMemory => {
+                A::check_init_merkle_cap(b, &pv[0], &crate::testing_utils::TEST_STARK_CONFIG)
+            }
+            Link::Timestamps => A::check_block_timestamp(
+                b,
+                pv[0].block_metadata.block_timestamp,
+                pv[1].block_metadata.block_timestamp,
+            ),
+            Link::Final => {
+                let s = &sets[0];
+                let t = TARGET_HASH_SIZE;
+                let f = FinalPublicValuesTarget {
+                    chain_id: s[0],
+                    checkpoint_state_trie_root: s[1..1 + t].try_into().unwrap(),
+                    new_state_trie_root: s[1 + t..1 + 2 * t].try_into().unwrap(),
+                    checkpoint_consolidated_hash: s[1 + 2 * t..5 + 2 * t].try_into().unwrap(),
+                    new_consolidated_hash: s[5 + 2 * t..9 + 2 * t].try_into().unwrap(),
+                };
+                f.connect_parent::<F, C, D>(b, &pv[0]);
+            }
+            Link::Select => {
+                let z = pv.pop().unwrap();
+                let y = pv.pop().unwrap();
+                let x = pv.pop().unwrap();
+                let s = PublicValuesTarget::select(b, flag, x, y);
+                connect_all(b, &s, &z);
+            }
+            Link::ConditionalRegisters => RegistersDataTarget::conditional_assert_eq(
+                b,
+                flag,
+                pv[0].registers_before.clone(),
+                pv[1].registers_before.clone(),
+            ),
+            Link::ConditionalMemory => MemCapTarget::conditional_assert_eq(
+                b,
+                flag,
+                pv[0].mem_before.clone(),
+                pv[1].mem_before.clone(),
+            ),
+            Link::ConditionalTries => TrieRootsTarget::conditional_assert_eq(
+                b,
+                flag,
+                pv[0].trie_roots_before,
+                pv[1].trie_roots_before,
+            ),
+            Link::ConditionalExtraData => ExtraBlockDataTarget::conditional_assert_eq(
+                b,
+                flag,
+                pv[0].extra_block_data,
+                pv[1].extra_block_data,
+            ),
+            Link::ConditionalBlockMetadata => BlockMetadataTarget::conditional_assert_eq(
+                b,
+                flag,
+                pv[0].block_metadata,
+                pv[1].block_metadata,
+            ),
+            Link::ConditionalBlockHashes => BlockHashesTarget::conditional_assert_eq(
+                b,
+                flag,
+                pv[0].block_hashes,
+                pv[1].block_hashes,
+            ),
+            Link::Registers => RegistersDataTarget::connect(
+                b,
+                pv[0].registers_before.clone(),
+                pv[1].registers_before.clone(),
+            ),
+            Link::Memory => {
+                MemCapTarget::connect(b, pv[0].mem_before.clone(), pv[1].mem_before.clone())
+            }
+            Link::Tries => {
+                TrieRootsTarget::connect(b, pv[0].trie_roots_before, pv[1].trie_roots_before)
+            }
+            Link::ExtraDataParts => {
+                ExtraBlockDataTarget::connect(b, pv[0].extra_block_data, pv[1].extra_block_data)
+            }
+            Link::BlockMetadata => {
+                BlockMetadataTarget::connect(b, pv[0].block_metadata, pv[1].block_metadata)
+            }
+            Link::BlockHashes => {
+                BlockHashesTarget::connect(b, pv[0].block_hashes, pv[1].block_hashes)
+            }
+        }
+        Self {
+            data: builder.build::<C>(),
+            sets,
+            flag,
+        }
+    }
+
+    /// Lengths of the sets of values to give.
+    pub fn sizes(&self) -> Vec<usize> {
+        self.sets.iter().map(Vec::len).collect()
+    }
+
+    /// Whether values satisfy the link. May panic for values that do not.
+    pub fn accepts(&self, flag: bool, values: &[Vec<F>]) -> bool {
+        let mut w = PartialWitness::new();
+        if w.set_bool_target(self.flag, flag).is_err() {
+            return false;
+        }
+        for (t, v) in self.sets.iter().zip_eq(values) {
+            for (&t, &v) in t.iter().zip_eq(v) {
+                if w.set_target(t, v).is_err() {
+                    return false;
+                }
+            }
+        }
+        match generate_partial_witness(w, &self.data.prover_only, &self.data.common) {
+            Err(_) => false,
+            Ok(w) => {
+                // Everything given must have been kept.
+                self.sets.iter().zip_eq(values).all(|(t, v)| {
+                    t.iter()
+                        .zip_eq(v)
+                        .all(|(&t, &v)| w.try_get_target(t).map_or(true, |x| x == v))
+                })
+            }
+        }
+    }
+}
+
+pub fn kernel_label(name: &str) -> usize {
+    KERNEL.global_labels[name]
+}
+
+/// The Merkle cap of the memory that holds nothing but the kernel's tables.
+pub fn initial_memory_cap() -> Vec<F> {
+    let c = crate::testing_utils::TEST_STARK_CONFIG.fri_config;
+    initial_memory_merkle_cap::<F, C, D>(c.rate_bits, c.cap_height)
+        .0
+        .iter()
+        .flat_map(|h| h.elements)
+        .collect()
+}
diff --git a/evm_arithmetization/src/verif_hooks/fields.rs b/evm_arithmetization/src/verif_hooks/fields.rs
new file mode 100644
index 0000000..d4c257b
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks/fields.rs
@@ -0,0 +1,218 @@
+//! Operations of the field towers and curves on values laid out as the kernel
+//! lays them out on its stack.
+
+use core::ops::Mul;
+
+use ethereum_types::U256;
+
+use crate::curve_pairings::{bls381, CurveAff, CyclicGroup};
+use crate::extension_tower::{Adj, FieldExt, Fp12, Fp2, Fp6, Stack, BLS381, BN254};
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Field {
+    Bn,
+    Bn2,
+    Bn6,
+    Bn12,
+    Bls,
+    Bls2,
+    Bls6,
+    Bls12,
+}
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum FieldOp {
+    Add,
+    Sub,
+    Mul,
+    Div,
+    Neg,
+    Inv,
+    Zero,
+    Unit,
+    /// Of the first word, a small integer.
+    New,
+    RoundTrip,
+}
+
+fn op<T: FieldExt + Stack>(o: FieldOp, a: &[U256], b: &[U256]) -> Vec<U256> {
+    let x = || T::from_stack(a);
+    let y = || T::from_stack(b);
+    match o {
+        FieldOp::Add => x() + y(),
+        FieldOp::Sub => x() - y(),
+        FieldOp::Mul => x() * y(),
+        FieldOp::Div => x() / y(),
+        FieldOp::Neg => -x(),
+        FieldOp::Inv => x().inv(),
+        FieldOp::Zero => T::ZERO,
+        FieldOp::Unit => T::UNIT,
+        FieldOp::New => T::new(a[0].as_usize()),
+        FieldOp::RoundTrip => x(),
+    }
+    .to_stack()
+}
+
+impl Field {
+    pub const ALL: [Self; 8] = [
+        Self::Bn,
+        Self::Bn2,
+        Self::Bn6,
+        Self::Bn12,
+        Self::Bls,
+        Self::Bls2,
+        Self::Bls6,
+        Self::Bls12,
+    ];
+
+    /// Number of stack words of an element.
+    pub const fn size(self) -> usize {
+        match self {
+            Self::Bn => BN254::SIZE,
+            Self::Bn2 => Fp2::<BN254>::SIZE,
+            Self::Bn6 => Fp6::<BN254>::SIZE,
+            Self::Bn12 => Fp12::<BN254>::SIZE,
+            Self::Bls => BLS381::SIZE,
+            Self::Bls2 => Fp2::<BLS381>::SIZE,
+            Self::Bls6 => Fp6::<BLS381>::SIZE,
+            Self::Bls12 => Fp12::<BLS381>::SIZE,
+        }
+    }
+
+    pub fn op(self, o: FieldOp, a: &[U256], b: &[U256]) -> Vec<U256> {
+        match self {
+            Self::Bn => op::<BN254>(o, a, b),
+            Self::Bn2 => op::<Fp2<BN254>>(o, a, b),
+            Self::Bn6 => op::<Fp6<BN254>>(o, a, b),
+            Self::Bn12 => op::<Fp12<BN254>>(o, a, b),
+            Self::Bls => op::<BLS381>(o, a, b),
+            Self::Bls2 => op::<Fp2<BLS381>>(o, a, b),
+            Self::Bls6 => op::<Fp6<BLS381>>(o, a, b),
+            Self::Bls12 => op::<Fp12<BLS381>>(o, a, b),
+        }
+    }
+}
+
+/// Operations of the extension fields over one base field.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum TowerOp {
+    Conj2,
+    Conj12,
+    Frob6(usize),
+    Frob12(usize),
+    /// An element of Fp2 by one of the base field.
+    Scale2,
+    Scale6,
+    Scale12,
+    MulAdj,
+    Mul1,
+    Mul01,
+    Mul014,
+}
+
+fn tower<T>(o: TowerOp, a: &[U256], b: &[U256]) -> Vec<U256>
+where
+    T: FieldExt + Stack,
+    Fp2<T>: Adj + Stack + Mul<T, Output = Fp2<T>>,
+{
+    let n = Fp2::<T>::SIZE;
+    let e2 = |i: usize| Fp2::<T>::from_stack(&b[i * n..(i + 1) * n]);
+    match o {
+        TowerOp::Conj2 => Fp2::<T>::from_stack(a).conj().to_stack(),
+        TowerOp::Conj12 => Fp12::<T>::from_stack(a).conj().to_stack(),
+        TowerOp::Frob6(k) => Fp6::<T>::from_stack(a).frob(k).to_stack(),
+        TowerOp::Frob12(k) => Fp12::<T>::from_stack(a).frob(k).to_stack(),
+        TowerOp::Scale2 => (Fp2::<T>::from_stack(a) * T::from_stack(b)).to_stack(),
+        TowerOp::Scale6 => (Fp6::<T>::from_stack(a) * e2(0)).to_stack(),
+        TowerOp::Scale12 => (Fp12::<T>::from_stack(a) * Fp6::<T>::from_stack(b)).to_stack(),
+        TowerOp::MulAdj => Fp2::<T>::from_stack(a).mul_adj().to_stack(),
+        TowerOp::Mul1 => Fp6::<T>::from_stack(a).mul_by_1(e2(0)).to_stack(),
+        TowerOp::Mul01 => Fp6::<T>::from_stack(a).mul_by_01(e2(0), e2(1)).to_stack(),
+        TowerOp::Mul014 => Fp12::<T>::from_stack(a)
+            .mul_by_014(e2(0), e2(1), e2(2))
+            .to_stack(),
+    }
+}
+
+pub fn tower_bn(o: TowerOp, a: &[U256], b: &[U256]) -> Vec<U256> {
+    tower::<BN254>(o, a, b)
+}
+
+pub fn tower_bls(o: TowerOp, a: &[U256], b: &[U256]) -> Vec<U256> {
+    tower::<BLS381>(o, a, b)
+}
+
+pub fn bls_sqrt(a: &[U256]) -> Option<Vec<U256>> {
+    BLS381::from_stack(a).sqrt().ok().map(|x| x.to_stack())
+}
+
+pub fn bls_lexicographically_largest(a: &[U256]) -> bool {
+    BLS381::from_stack(a).lexicographically_largest()
+}
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Curve {
+    Bn1,
+    Bn2,
+    Bls1,
+    Bls2,
+}
+
+impl Curve {
+    pub fn add(self, a: &[U256], b: &[U256]) -> Vec<U256> {
+        fn f<T: FieldExt + Stack>(a: &[U256], b: &[U256]) -> Vec<U256> {
+            (CurveAff::<T>::from_stack(a) + CurveAff::<T>::from_stack(b)).to_stack()
+        }
+        match self {
+            Self::Bn1 => f::<BN254>(a, b),
+            Self::Bn2 => f::<Fp2<BN254>>(a, b),
+            Self::Bls1 => f::<BLS381>(a, b),
+            Self::Bls2 => f::<Fp2<BLS381>>(a, b),
+        }
+    }
+
+    pub fn neg(self, a: &[U256]) -> Vec<U256> {
+        fn f<T: FieldExt + Stack>(a: &[U256]) -> Vec<U256> {
+            (-CurveAff::<T>::from_stack(a)).to_stack()
+        }
+        match self {
+            Self::Bn1 => f::<BN254>(a),
+            Self::Bn2 => f::<Fp2<BN254>>(a),
+            Self::Bls1 => f::<BLS381>(a),
+            Self::Bls2 => f::<Fp2<BLS381>>(a),
+        }
+    }
+}
+
+/// Multiplication on the BLS12-381 curves.
+pub fn bls1_mul(a: &[U256], k: i32) -> Vec<U256> {
+    (CurveAff::<BLS381>::from_stack(a) * k).to_stack()
+}
+
+pub fn bls2_mul(a: &[U256], k: i32) -> Vec<U256> {
+    (CurveAff::<Fp2<BLS381>>::from_stack(a) * k).to_stack()
+}
+
+pub fn bls1_generator() -> Vec<U256> {
+    CurveAff::<BLS381>::GENERATOR.to_stack()
+}
+
+pub fn bls2_generator() -> Vec<U256> {
+    CurveAff::<Fp2<BLS381>>::GENERATOR.to_stack()
+}
+
+pub fn bls1_from_bytes(b: &[u8; 48]) -> Option<Vec<U256>> {
+    bls381::g1_from_bytes(b).ok().map(|p| p.to_stack())
+}
+
+pub fn bls_pairing(p: &[U256], q: &[U256]) -> Vec<U256> {
+    bls381::ate_optim(CurveAff::from_stack(p), CurveAff::from_stack(q)).to_stack()
+}
+
+pub fn bls_miller_loop(p: &[U256], q: &[U256]) -> Vec<U256> {
+    bls381::miller_loop(CurveAff::from_stack(p), CurveAff::from_stack(q)).to_stack()
+}
+
+pub fn bls_final_exponent(f: &[U256]) -> Vec<U256> {
+    bls381::final_exponent(Fp12::from_stack(f)).to_stack()
+}
diff --git a/evm_arithmetization/src/verif_hooks/mod.rs b/evm_arithmetization/src/verif_hooks/mod.rs
new file mode 100644
index 0000000..57d8eb5
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks/mod.rs
@@ -0,0 +1,12 @@
+//! Access to crate-private items for external verification harnesses. Only
+//! compiled under `--cfg verif_hooks`; contains no logic of its own beyond
+//! calling into the crate and copying data in and out.
+
+pub mod fields;
+pub mod tables;
+pub mod values;
+pub mod vm;
+
+pub use crate::fixed_recursive_verifier::verif_circuits as circuits;
+
+pub type F = plonky2::field::goldilocks_field::GoldilocksField;
diff --git a/evm_arithmetization/src/verif_hooks/tables.rs b/evm_arithmetization/src/verif_hooks/tables.rs
new file mode 100644
index 0000000..b7817f1
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks/tables.rs
@@ -0,0 +1,578 @@
+//! Traces, tables, constraints and lookups.
+
+use ethereum_types::U256;
+use plonky2::field::polynomial::PolynomialValues;
+use plonky2::field::types::Field;
+use plonky2::util::timing::TimingTree;
+use starky::constraint_consumer::ConstraintConsumer;
+use starky::evaluation_frame::StarkEvaluationFrame;
+use starky::stark::Stark;
+
+use super::vm::Regs;
+use super::F;
+use crate::all_stark::AllStark;
+use crate::arithmetic::{self, BinaryOperator, TernaryOperator};
+use crate::byte_packing::byte_packing_stark::BytePackingOp;
+use crate::cpu::columns::{CpuColumnsView, COL_MAP};
+use crate::cpu::kernel::aggregator::KERNEL;
+use crate::generation::segments::GenerationSegmentData;
+use crate::generation::state::{GenerationState, State};
+use crate::generation::{GenerationInputs, TablesWithPVs};
+use crate::keccak_sponge::keccak_sponge_stark::KeccakSpongeOp;
+use crate::logic;
+use crate::memory::segments::Segment;
+use crate::proof::PublicValues;
+use crate::testing_utils::TEST_STARK_CONFIG;
+use crate::verifier::debug_utils::get_memory_extra_looking_values;
+use crate::witness::memory::{MemoryAddress, MemoryContextState, MemoryOp, MemoryOpKind};
+
+const D: usize = 2;
+
+/// Column-major table.
+pub type Table = Vec<Vec<F>>;
+
+fn cols(t: Vec<PolynomialValues<F>>) -> Table {
+    t.into_iter().map(|p| p.values).collect()
+}
+
+/// All stark objects, constructed once.
+pub struct Starks(AllStark<F, D>);
+
+impl Default for Starks {
+    fn default() -> Self {
+        Self(AllStark::default())
+    }
+}
+
+fn eval<S: Stark<F, D>>(s: &S, lv: &[F], nv: &[F], first: bool, last: bool, out: &mut Vec<F>) {
+    // Two fixed points stand for the random combination coefficients.
+    let mut c = ConstraintConsumer::<F>::new(
+        vec![
+            F::from_canonical_u64(0x9e37_79b9_7f4a_7c15),
+            F::from_canonical_u64(0x2545_f491_4f6c_dd1d),
+        ],
+        F::from_bool(!last),
+        F::from_bool(first),
+        F::from_bool(last),
+    );
+    let vars =
+        <S::EvaluationFrame<F, F, 1> as StarkEvaluationFrame<F, F>>::from_values(lv, nv, &[]);
+    s.eval_packed_generic::<F, F, 1>(&vars, &mut c);
+    out.extend(c.accumulators());
+}
+
+impl Starks {
+    /// Whether the constraints of `table` hold on a row and its successor.
+    pub fn holds(&self, table: usize, lv: &[F], nv: &[F], first: bool, last: bool) -> bool {
+        let mut out = Vec::with_capacity(2);
+        let s = &self.0;
+        match table {
+            0 => eval(&s.arithmetic_stark, lv, nv, first, last, &mut out),
+            1 => eval(&s.byte_packing_stark, lv, nv, first, last, &mut out),
+            2 => eval(&s.cpu_stark, lv, nv, first, last, &mut out),
+            3 => eval(&s.keccak_stark, lv, nv, first, last, &mut out),
+            4 => eval(&s.keccak_sponge_stark, lv, nv, first, last, &mut out),
+            5 => eval(&s.logic_stark, lv, nv, first, last, &mut out),
+            6 => eval(&s.memory_stark, lv, nv, first, last, &mut out),
+            7 => eval(&s.mem_before_stark, lv, nv, first, last, &mut out),
+            8 => eval(&s.mem_after_stark, lv, nv, first, last, &mut out),
+            _ => panic!("no such table"),
+        }
+        out.iter().all(|x| x.is_zero())
+    }
+
+    /// The lookups within each table, as debug text.
+    pub fn lookups(&self) -> Vec<String> {
+        let s = &self.0;
+        vec![
+            format!("{:?}", s.arithmetic_stark.lookups()),
+            format!("{:?}", s.byte_packing_stark.lookups()),
+            format!("{:?}", s.cpu_stark.lookups()),
+            format!("{:?}", s.keccak_stark.lookups()),
+            format!("{:?}", s.keccak_sponge_stark.lookups()),
+            format!("{:?}", s.logic_stark.lookups()),
+            format!("{:?}", s.memory_stark.lookups()),
+            format!("{:?}", s.mem_before_stark.lookups()),
+            format!("{:?}", s.mem_after_stark.lookups()),
+        ]
+    }
+
+    /// The lookups across tables, as debug text.
+    pub fn cross_table_lookups(&self) -> String {
+        format!("{:?}", self.0.cross_table_lookups)
+    }
+
+    pub fn arithmetic(&self, ops: &[ArithOp]) -> Table {
+        cols(
+            self.0
+                .arithmetic_stark
+                .generate_trace(ops.iter().map(ArithOp::operation).collect()),
+        )
+    }
+
+    pub fn logic(&self, ops: &[(usize, U256, U256)]) -> Table {
+        let ops = ops
+            .iter()
+            .map(|&(op, a, b)| logic::Operation::new(logic_op(op), a, b))
+            .collect();
+        cols(
+            self.0
+                .logic_stark
+                .generate_trace(ops, 16, &mut TimingTree::default()),
+        )
+    }
+
+    pub fn byte_packing(&self, ops: &[PackOp]) -> Table {
+        let ops = ops
+            .iter()
+            .map(|o| BytePackingOp {
+                is_read: o.is_read,
+                base_address: addr(o.address),
+                timestamp: o.timestamp,
+                bytes: o.bytes.clone(),
+            })
+            .collect();
+        cols(
+            self.0
+                .byte_packing_stark
+                .generate_trace(ops, 16, &mut TimingTree::default()),
+        )
+    }
+
+    pub fn keccak(&self, inputs: &[([u64; 25], usize)]) -> Table {
+        cols(
+            self.0
+                .keccak_stark
+                .generate_trace(inputs.to_vec(), 16, &mut TimingTree::default()),
+        )
+    }
+
+    pub fn keccak_sponge(&self, ops: &[SpongeOp]) -> Table {
+        let ops = ops
+            .iter()
+            .map(|o| KeccakSpongeOp {
+                base_address: addr(o.address),
+                timestamp: o.timestamp,
+                input: o.input.clone(),
+            })
+            .collect();
+        cols(
+            self.0
+                .keccak_sponge_stark
+                .generate_trace(ops, 16, &mut TimingTree::default()),
+        )
+    }
+
+    /// The memory table for a log, its final values and its unpadded length.
+    pub fn memory(
+        &self,
+        ops: &[MemOp],
+        before: &[((usize, usize, usize), U256)],
+        stale: &[usize],
+    ) -> (Table, Vec<Vec<F>>, usize) {
+        let ops = ops.iter().map(MemOp::op).collect();
+        let before: Vec<_> = before.iter().map(|&(a, v)| (addr(a), v)).collect();
+        let (t, f, n) = self.0.memory_stark.generate_trace(
+            ops,
+            &before,
+            stale.to_vec(),
+            &mut TimingTree::default(),
+        );
+        (cols(t), f, n)
+    }
+
+    /// The table of a continuation memory.
+    pub fn mem_after(&self, values: Vec<Vec<F>>) -> Table {
+        cols(self.0.mem_after_stark.generate_trace(values))
+    }
+
+    pub fn mem_before(&self, before: &[((usize, usize, usize), U256)]) -> Table {
+        let before: Vec<_> = before.iter().map(|&(a, v)| (addr(a), v)).collect();
+        cols(self.0.mem_before_stark.generate_trace(
+            crate::memory_continuation::memory_continuation_stark::mem_before_values_to_rows(
+                &before,
+            ),
+        ))
+    }
+
+    /// The tables of a segment, as the prover makes them.
+    pub fn segment(
+        &self,
+        inputs: &crate::generation::TrimmedGenerationInputs<F>,
+        data: &mut GenerationSegmentData,
+    ) -> Result<(Vec<Table>, Vec<bool>, PublicValues<F>), String> {
+        let TablesWithPVs {
+            tables,
+            table_in_use,
+            public_values,
+        } = crate::generation::generate_traces(
+            &self.0,
+            inputs,
+            &TEST_STARK_CONFIG,
+            data,
+            &mut TimingTree::default(),
+        )
+        .map_err(|e| e.to_string())?;
+        Ok((
+            tables.into_iter().map(cols).collect(),
+            table_in_use.to_vec(),
+            public_values,
+        ))
+    }
+}
+
+/// Memory rows that the verifier adds for the public values.
+pub fn extra_memory_rows(pv: &PublicValues<F>) -> Vec<Vec<F>> {
+    get_memory_extra_looking_values::<F, D>(pv)
+}
+
+/// Positions of the processor's columns, the number of a column being stored
+/// in the place of the column.
+pub fn cpu_columns() -> String {
+    format!("{COL_MAP:?}")
+}
+
+/// Positions of the columns of the memory table, as debug text.
+pub fn memory_columns() -> String {
+    format!("{:?}", crate::memory::columns::MEMORY_COL_MAP)
+}
+
+fn addr((context, segment, virt): (usize, usize, usize)) -> MemoryAddress {
+    MemoryAddress {
+        context,
+        segment,
+        virt,
+    }
+}
+
+const fn logic_op(i: usize) -> logic::Op {
+    match i {
+        0 => logic::Op::And,
+        1 => logic::Op::Or,
+        _ => logic::Op::Xor,
+    }
+}
+
+pub fn logic_result(op: usize, a: U256, b: U256) -> U256 {
+    logic_op(op).result(a, b)
+}
+
+#[derive(Clone, Debug)]
+pub enum ArithOp {
+    /// By position in [`BINARY`].
+    Binary(usize, U256, U256),
+    /// By position in [`TERNARY`].
+    Ternary(usize, U256, U256, U256),
+    RangeCheck(U256, U256, U256, U256, U256),
+}
+
+pub const BINARY: [&str; 13] = [
+    "Add", "Mul", "Sub", "Div", "Mod", "Lt", "Gt", "AddFp254", "MulFp254", "SubFp254", "Byte",
+    "Shl", "Shr",
+];
+pub const TERNARY: [&str; 3] = ["AddMod", "MulMod", "SubMod"];
+
+const BINARY_OPS: [BinaryOperator; 13] = [
+    BinaryOperator::Add,
+    BinaryOperator::Mul,
+    BinaryOperator::Sub,
+    BinaryOperator::Div,
+    BinaryOperator::Mod,
+    BinaryOperator::Lt,
+    BinaryOperator::Gt,
+    BinaryOperator::AddFp254,
+    BinaryOperator::MulFp254,
+    BinaryOperator::SubFp254,
+    BinaryOperator::Byte,
+    BinaryOperator::Shl,
+    BinaryOperator::Shr,
+];
+const TERNARY_OPS: [TernaryOperator; 3] = [
+    TernaryOperator::AddMod,
+    TernaryOperator::MulMod,
+    TernaryOperator::SubMod,
+];
+
+impl ArithOp {
+    pub(crate) fn operation(&self) -> arithmetic::Operation {
+        match *self {
+            Self::Binary(o, a, b) => arithmetic::Operation::binary(BINARY_OPS[o], a, b),
+            Self::Ternary(o, a, b, c) => arithmetic::Operation::ternary(TERNARY_OPS[o], a, b, c),
+            Self::RangeCheck(a, b, c, o, r) => arithmetic::Operation::range_check(a, b, c, o, r),
+        }
+    }
+
+    pub fn result(&self) -> U256 {
+        self.operation().result()
+    }
+
+    /// The flag column of the operation.
+    pub fn flag(&self) -> usize {
+        match *self {
+            Self::Binary(o, ..) => BINARY_OPS[o].row_filter(),
+            Self::Ternary(o, ..) => TERNARY_OPS[o].row_filter(),
+            Self::RangeCheck(..) => arithmetic::columns::IS_RANGE_CHECK,
+        }
+    }
+}
+
+/// Columns of the arithmetic table: first input, second, third, output, opcode.
+pub fn arithmetic_registers() -> [std::ops::Range<usize>; 4] {
+    use arithmetic::columns::*;
+    [
+        INPUT_REGISTER_0,
+        INPUT_REGISTER_1,
+        INPUT_REGISTER_2,
+        OUTPUT_REGISTER,
+    ]
+}
+
+#[derive(Clone, Debug)]
+pub struct PackOp {
+    pub is_read: bool,
+    pub address: (usize, usize, usize),
+    pub timestamp: usize,
+    pub bytes: Vec<u8>,
+}
+
+#[derive(Clone, Debug)]
+pub struct SpongeOp {
+    pub address: (usize, usize, usize),
+    pub timestamp: usize,
+    pub input: Vec<u8>,
+}
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub struct MemOp {
+    pub filter: bool,
+    pub timestamp: usize,
+    pub address: (usize, usize, usize),
+    pub is_read: bool,
+    pub value: U256,
+}
+
+impl MemOp {
+    fn op(&self) -> MemoryOp {
+        MemoryOp {
+            filter: self.filter,
+            timestamp: self.timestamp,
+            address: addr(self.address),
+            kind: if self.is_read {
+                MemoryOpKind::Read
+            } else {
+                MemoryOpKind::Write
+            },
+            value: self.value,
+        }
+    }
+
+    fn of(o: &MemoryOp) -> Self {
+        Self {
+            filter: o.filter,
+            timestamp: o.timestamp,
+            address: (o.address.context, o.address.segment, o.address.virt),
+            is_read: o.kind == MemoryOpKind::Read,
+            value: o.value,
+        }
+    }
+}
+
+/// A machine that records its trace.
+pub struct Tracer {
+    pub(crate) st: GenerationState<F>,
+    before: Vec<((usize, usize, usize), U256)>,
+}
+
+impl Tracer {
+    /// In kernel mode at `pc`; `stack` is given from bottom to top.
+    pub fn new(pc: usize, stack: &[U256]) -> Self {
+        let mut st = GenerationState::<F>::new(&GenerationInputs::default(), &KERNEL.code).unwrap();
+        st.registers.program_counter = pc;
+        st.registers.is_kernel = true;
+        let mut t = Self { st, before: vec![] };
+        t.set_stack(stack);
+        t
+    }
+
+    pub fn set_context(&mut self, ctx: usize) {
+        while self.st.memory.contexts.len() <= ctx {
+            self.st.memory.contexts.push(MemoryContextState::default());
+        }
+        self.st.registers.context = ctx;
+    }
+
+    pub fn set_kernel(&mut self, k: bool) {
+        self.st.registers.is_kernel = k;
+    }
+
+    pub fn set_pc(&mut self, pc: usize) {
+        self.st.registers.program_counter = pc;
+    }
+
+    pub fn set_gas_used(&mut self, g: u64) {
+        self.st.registers.gas_used = g;
+    }
+
+    pub fn set_stack(&mut self, stack: &[U256]) {
+        let ctx = self.st.registers.context;
+        self.st.memory.contexts[ctx].segments[Segment::Stack.unscale()]
+            .content
+            .clear();
+        for (i, &v) in stack.iter().enumerate() {
+            self.set(ctx, Segment::Stack.unscale(), i, v);
+        }
+        let r = &mut self.st.registers;
+        r.stack_len = stack.len();
+        r.stack_top = stack.last().copied().unwrap_or_default();
+        r.is_stack_top_read = false;
+        r.check_overflow = false;
+    }
+
+    /// Sets a cell of the memory before the execution.
+    pub fn set(&mut self, ctx: usize, segment: usize, virt: usize, v: U256) {
+        let a = (ctx, segment, virt);
+        self.st.memory.set(addr(a), v);
+        match self.before.iter_mut().find(|(b, _)| *b == a) {
+            Some((_, w)) => *w = v,
+            None => self.before.push((a, v)),
+        }
+    }
+
+    /// Like `set`, without looking for an earlier value of the cell.
+    pub fn set_new(&mut self, ctx: usize, segment: usize, virt: usize, v: U256) {
+        let a = (ctx, segment, virt);
+        self.st.memory.set(addr(a), v);
+        self.before.push((a, v));
+    }
+
+    pub fn get(&self, ctx: usize, segment: usize, virt: usize) -> U256 {
+        self.st.memory.get_with_init(addr((ctx, segment, virt)))
+    }
+
+    pub fn regs(&self) -> Regs {
+        Regs::of(&self.st.registers)
+    }
+
+    pub fn step(&mut self) -> Result<(), String> {
+        self.st.transition().map_err(|e| {
+            let mut s = e.to_string();
+            s.truncate(300);
+            s
+        })
+    }
+
+    pub fn run(&mut self, halts: &[usize], max_steps: usize) -> super::vm::Stop {
+        use super::vm::Stop;
+        for _ in 0..max_steps {
+            let r = &self.st.registers;
+            if r.is_kernel && halts.contains(&r.program_counter) {
+                return Stop::Halted(r.program_counter);
+            }
+            if let Err(e) = self.step() {
+                return Stop::Failed(e);
+            }
+        }
+        Stop::OutOfSteps
+    }
+
+    /// The processor rows so far.
+    pub fn cpu_rows(&self) -> Vec<Vec<F>> {
+        self.st
+            .traces
+            .cpu
+            .iter()
+            .map(|r| {
+                let a: [F; crate::cpu::columns::NUM_CPU_COLUMNS] = (*r).into();
+                a.to_vec()
+            })
+            .collect()
+    }
+
+    /// The processor row that would start the next step.
+    pub fn next_row(&mut self) -> Vec<F> {
+        let (row, _) = self.st.base_row();
+        let n = self.st.traces.memory_ops.len();
+        self.st.traces.memory_ops.truncate(n - 1);
+        let a: [F; crate::cpu::columns::NUM_CPU_COLUMNS] = row.into();
+        a.to_vec()
+    }
+
+    pub fn memory_ops(&self) -> Vec<MemOp> {
+        self.st.traces.memory_ops.iter().map(MemOp::of).collect()
+    }
+
+    pub fn memory_before(&self) -> Vec<((usize, usize, usize), U256)> {
+        self.before.clone()
+    }
+
+    pub fn stale_contexts(&self) -> Vec<usize> {
+        self.st.stale_contexts.clone()
+    }
+
+    /// Pads the processor rows as the prover does and makes all tables. The
+    /// kernel must be at its halting loop.
+    pub fn tables(mut self, starks: &Starks) -> Vec<Table> {
+        let mut row = CpuColumnsView::<F>::default();
+        let r = self.st.registers;
+        row.clock = F::from_canonical_usize(self.st.traces.clock() + 1);
+        row.context = F::from_canonical_usize(r.context);
+        row.program_counter = F::from_canonical_usize(r.program_counter);
+        row.is_kernel_mode = F::ONE;
+        row.gas = F::from_canonical_u64(r.gas_used);
+        row.stack_len = F::from_canonical_usize(r.stack_len);
+        loop {
+            self.st.push_cpu(row);
+            row.clock += F::ONE;
+            if self.st.traces.clock().is_power_of_two() {
+                break;
+            }
+        }
+        let lengths = self.st.traces.get_lengths();
+        let before: Vec<_> = self.before.iter().map(|&(a, v)| (addr(a), v)).collect();
+        let (tables, _) = self.st.traces.into_tables(
+            &starks.0,
+            &before,
+            self.st.stale_contexts,
+            lengths,
+            &TEST_STARK_CONFIG,
+            &mut TimingTree::default(),
+        );
+        tables.into_iter().map(cols).collect()
+    }
+}
+
+/// What a segment announces: index, registers before and after, and memory.
+pub struct SegmentView {
+    pub index: usize,
+    pub before: Regs,
+    pub after: Regs,
+    pub memory: Vec<((usize, usize, usize), U256)>,
+    pub preinitialized: Vec<(usize, Vec<Option<U256>>)>,
+}
+
+pub fn segment_view(d: &GenerationSegmentData) -> SegmentView {
+    let mut memory = vec![];
+    for (c, ctx) in d.memory.contexts.iter().enumerate() {
+        for (s, seg) in ctx.segments.iter().enumerate() {
+            for (i, v) in seg.content.iter().enumerate() {
+                if let Some(v) = *v {
+                    memory.push(((c, s, i), v));
+                }
+            }
+        }
+    }
+    let mut preinitialized: Vec<_> = d
+        .memory
+        .preinitialized_segments
+        .iter()
+        .map(|(s, c)| (s.unscale(), c.content.clone()))
+        .collect();
+    preinitialized.sort();
+    SegmentView {
+        index: d.segment_index,
+        before: Regs::of(&d.registers_before),
+        after: Regs::of(&d.registers_after),
+        memory,
+        preinitialized,
+    }
+}
diff --git a/evm_arithmetization/src/verif_hooks/values.rs b/evm_arithmetization/src/verif_hooks/values.rs
new file mode 100644
index 0000000..463e227
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks/values.rs
@@ -0,0 +1,117 @@
+//! Encodings of the public values.
+
+use plonky2::hash::poseidon::PoseidonHash;
+use plonky2::iop::challenger::{Challenger, RecursiveChallenger};
+use plonky2::iop::generator::generate_partial_witness;
+use plonky2::iop::target::Target;
+use plonky2::iop::witness::{PartialWitness, Witness, WitnessWrite};
+use plonky2::plonk::circuit_builder::CircuitBuilder;
+use plonky2::plonk::circuit_data::{CircuitConfig, CircuitData};
+use plonky2::plonk::config::PoseidonGoldilocksConfig;
+use plonky2::util::serialization::Buffer;
+use starky::lookup::GrandProductChallenge;
+
+use super::F;
+use crate::get_challenges::{observe_public_values, observe_public_values_target};
+use crate::proof::{FinalPublicValuesTarget, PublicValues, PublicValuesTarget};
+use crate::recursive_verifier::{
+    add_virtual_final_public_values_public_input, add_virtual_public_values_public_input,
+    get_memory_extra_looking_sum_circuit, set_public_value_targets,
+};
+use crate::verifier::testing::get_memory_extra_looking_sum;
+
+const D: usize = 2;
+type C = PoseidonGoldilocksConfig;
+
+/// The challenges drawn after observing the values.
+pub fn challenges(pv: &PublicValues<F>) -> Result<Vec<F>, String> {
+    let mut c = Challenger::<F, PoseidonHash>::new();
+    observe_public_values::<F, C, D>(&mut c, pv).map_err(|e| format!("{e:?}"))?;
+    Ok(c.get_n_challenges(4))
+}
+
+/// What the verifier adds to the memory lookup for the values.
+pub fn memory_sum(pv: &PublicValues<F>, beta: F, gamma: F) -> F {
+    get_memory_extra_looking_sum::<F, D>(pv, GrandProductChallenge { beta, gamma })
+}
+
+/// A circuit holding public values.
+pub struct Encoder {
+    data: CircuitData<F, C, D>,
+    pv: PublicValuesTarget,
+    beta: Target,
+    gamma: Target,
+    challenges: Vec<Target>,
+    sum: Target,
+}
+
+impl Default for Encoder {
+    fn default() -> Self {
+        let mut b = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
+        let pv = add_virtual_public_values_public_input(&mut b);
+        let beta = b.add_virtual_target();
+        let gamma = b.add_virtual_target();
+        let mut c = RecursiveChallenger::<F, PoseidonHash, D>::new(&mut b);
+        observe_public_values_target::<F, C, D>(&mut c, &pv);
+        let challenges = c.get_n_challenges(&mut b, 4);
+        let sum = get_memory_extra_looking_sum_circuit(
+            &mut b,
+            &pv,
+            GrandProductChallenge { beta, gamma },
+        );
+        Self {
+            data: b.build::<C>(),
+            pv,
+            beta,
+            gamma,
+            challenges,
+            sum,
+        }
+    }
+}
+
+/// What a circuit makes of public values.
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub struct Encoded {
+    pub inputs: Vec<F>,
+    pub challenges: Vec<F>,
+    pub sum: F,
+}
+
+impl Encoder {
+    pub fn encode(&self, pv: &PublicValues<F>, beta: F, gamma: F) -> Result<Encoded, String> {
+        let mut w = PartialWitness::new();
+        set_public_value_targets::<F, _, D>(&mut w, &self.pv, pv).map_err(|e| format!("{e:?}"))?;
+        w.set_target(self.beta, beta).map_err(|e| e.to_string())?;
+        w.set_target(self.gamma, gamma).map_err(|e| e.to_string())?;
+        let w = generate_partial_witness(w, &self.data.prover_only, &self.data.common)
+            .map_err(|e| e.to_string())?;
+        Ok(Encoded {
+            inputs: w.get_targets(&self.data.prover_only.public_inputs),
+            challenges: w.get_targets(&self.challenges),
+            sum: w.get_target(self.sum),
+        })
+    }
+
+    /// Whether reading the targets back from the public inputs, or from a
+    /// serialized form, yields the same targets.
+    pub fn targets_round_trip(&self) -> Result<(bool, bool), String> {
+        let r = PublicValuesTarget::from_public_inputs(&self.data.prover_only.public_inputs);
+        let mut buf = vec![];
+        self.pv.to_buffer(&mut buf).map_err(|e| format!("{e:?}"))?;
+        let s = PublicValuesTarget::from_buffer(&mut Buffer::new(&buf))
+            .map_err(|e| format!("{e:?}"))?;
+        Ok((r == self.pv, s == self.pv))
+    }
+}
+
+/// The same for the final public values.
+pub fn final_targets_round_trip() -> Result<bool, String> {
+    let mut b = CircuitBuilder::<F, D>::new(CircuitConfig::standard_recursion_config());
+    let t = add_virtual_final_public_values_public_input(&mut b);
+    let mut buf = vec![];
+    t.to_buffer(&mut buf).map_err(|e| format!("{e:?}"))?;
+    let s = FinalPublicValuesTarget::from_buffer(&mut Buffer::new(&buf))
+        .map_err(|e| format!("{e:?}"))?;
+    Ok(s == t)
+}
diff --git a/evm_arithmetization/src/verif_hooks/vm.rs b/evm_arithmetization/src/verif_hooks/vm.rs
new file mode 100644
index 0000000..5ca94bb
--- /dev/null
+++ b/evm_arithmetization/src/verif_hooks/vm.rs
@@ -0,0 +1,475 @@
+//! The kernel assembler and the interpreter.
+
+use std::collections::{BTreeMap, HashMap, HashSet};
+
+use ethereum_types::{H256, U256};
+
+use super::F;
+use crate::cpu::kernel::aggregator::KERNEL;
+use crate::cpu::kernel::assembler::assemble;
+use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
+use crate::cpu::kernel::constants::evm_constants;
+use crate::cpu::kernel::constants::global_metadata::GlobalMetadata;
+use crate::cpu::kernel::constants::txn_fields::NormalizedTxnField;
+use crate::cpu::kernel::interpreter::Interpreter;
+use crate::cpu::kernel::parser::parse;
+use crate::generation::linked_list::LinkedListsPtrs;
+use crate::generation::mpt::{
+    load_linked_lists_and_txn_and_receipt_mpts, load_state_mpt, TrieRootPtrs,
+};
+use crate::generation::state::{GenerationState, State};
+use crate::generation::{GenerationInputs, TrieInputs, TrimmedGenerationInputs};
+use crate::memory::segments::Segment;
+use crate::witness::memory::{MemoryAddress, MemoryContextState, MemorySegmentState, MemoryState};
+use crate::witness::state::RegistersState;
+use crate::witness::traces::Traces;
+use crate::witness::util::stack_peek;
+
+/// What the assembler makes of some sources.
+#[derive(Debug, PartialEq, Eq)]
+pub struct Assembled {
+    pub code: Vec<u8>,
+    pub labels: BTreeMap<String, usize>,
+    /// Offsets of the prover inputs.
+    pub prover_inputs: Vec<usize>,
+}
+
+pub fn assemble_sources(
+    sources: &[String],
+    features: &[&str],
+    constants: &[(String, U256)],
+    optimize: bool,
+) -> Assembled {
+    let features: HashSet<&str> = features.iter().copied().collect();
+    let files = sources.iter().map(|s| parse(s, &features)).collect();
+    let k = assemble(files, constants.iter().cloned().collect(), optimize);
+    let mut prover_inputs: Vec<usize> = k.prover_inputs.keys().copied().collect();
+    prover_inputs.sort_unstable();
+    Assembled {
+        code: k.code,
+        labels: k.global_labels.into_iter().collect(),
+        prover_inputs,
+    }
+}
+
+/// The constants known to the kernel sources, addresses being scaled.
+pub fn kernel_constants() -> HashMap<String, U256> {
+    evm_constants()
+}
+
+pub fn kernel_code() -> &'static [u8] {
+    &KERNEL.code
+}
+
+pub fn kernel_labels() -> &'static HashMap<String, usize> {
+    &KERNEL.global_labels
+}
+
+pub fn kernel_hash() -> H256 {
+    KERNEL.code_hash
+}
+
+/// Name of a kernel code offset.
+pub fn offset_name(pc: usize) -> String {
+    KERNEL.offset_name(pc)
+}
+
+/// Segments by name, in the order of their unscaled numbers.
+pub fn segments() -> Vec<(String, usize)> {
+    Segment::all()
+        .iter()
+        .map(|s| (format!("{s:?}"), s.bit_range()))
+        .collect()
+}
+
+/// Unscaled numbers of the global metadata fields, by name.
+pub fn global_metadata() -> Vec<(String, usize)> {
+    GlobalMetadata::all()
+        .iter()
+        .map(|m| (format!("{m:?}"), m.unscale()))
+        .collect()
+}
+
+/// Unscaled numbers of the context metadata fields, by name.
+pub fn context_metadata() -> Vec<(String, usize)> {
+    ContextMetadata::all()
+        .iter()
+        .map(|m| (format!("{m:?}"), m.unscale()))
+        .collect()
+}
+
+/// Unscaled numbers of the normalized transaction fields, by kernel name.
+pub fn txn_fields() -> Vec<(String, usize)> {
+    NormalizedTxnField::all()
+        .iter()
+        .map(|m| {
+            (
+                m.var_name().to_string(),
+                *m as usize - Segment::TxnFields as usize,
+            )
+        })
+        .collect()
+}
+
+#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
+pub struct Regs {
+    pub pc: usize,
+    pub is_kernel: bool,
+    pub stack_len: usize,
+    pub stack_top: U256,
+    pub context: usize,
+    pub gas_used: u64,
+}
+
+impl Regs {
+    pub(crate) const fn of(r: &RegistersState) -> Self {
+        Self {
+            pc: r.program_counter,
+            is_kernel: r.is_kernel,
+            stack_len: r.stack_len,
+            stack_top: r.stack_top,
+            context: r.context,
+            gas_used: r.gas_used,
+        }
+    }
+}
+
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub enum Stop {
+    /// Reached one of the given kernel offsets.
+    Halted(usize),
+    /// The machine itself failed.
+    Failed(String),
+    /// Ran for the given number of steps.
+    OutOfSteps,
+}
+
+/// The interpreter.
+pub struct Vm {
+    it: Interpreter<F>,
+}
+
+/// All of the machine but the kernel code.
+#[derive(Clone)]
+pub struct Snapshot {
+    inputs: TrimmedGenerationInputs<F>,
+    registers: RegistersState,
+    contexts: Vec<MemoryContextState>,
+    preinitialized: HashMap<Segment, MemorySegmentState>,
+    next_txn_index: usize,
+    stale_contexts: Vec<usize>,
+    rlp: Vec<U256>,
+    withdrawals: Vec<U256>,
+    ger: Vec<U256>,
+    bignum: Vec<U256>,
+    trie_root_ptrs: TrieRootPtrs,
+    jumpdest_table: Option<HashMap<usize, Vec<usize>>>,
+    access_lists_ptrs: LinkedListsPtrs,
+    state_ptrs: LinkedListsPtrs,
+    clock: usize,
+}
+
+const CODE: usize = Segment::Code.unscale();
+
+impl Vm {
+    /// `stack` is given from bottom to top.
+    pub fn new(pc: usize, stack: Vec<U256>) -> Self {
+        let mut it = Interpreter::new(pc, stack, None);
+        it.generation_state.registers.is_kernel = true;
+        Self { it }
+    }
+
+    pub fn new_with_inputs(pc: usize, stack: Vec<U256>, inputs: &GenerationInputs<F>) -> Self {
+        let mut it = Interpreter::new_with_generation_inputs(pc, stack, inputs, None);
+        it.generation_state.registers.is_kernel = true;
+        Self { it }
+    }
+
+    fn st(&self) -> &GenerationState<F> {
+        &self.it.generation_state
+    }
+
+    fn st_mut(&mut self) -> &mut GenerationState<F> {
+        &mut self.it.generation_state
+    }
+
+    pub fn step(&mut self) -> Result<(), String> {
+        self.it.transition().map_err(|e| {
+            let mut s = e.to_string();
+            s.truncate(300);
+            s
+        })
+    }
+
+    /// Runs until the kernel reaches one of `halts`.
+    pub fn run(&mut self, halts: &[usize], max_steps: usize) -> Stop {
+        for _ in 0..max_steps {
+            let r = &self.st().registers;
+            if r.is_kernel && halts.contains(&r.program_counter) {
+                return Stop::Halted(r.program_counter);
+            }
+            if let Err(e) = self.step() {
+                return Stop::Failed(e);
+            }
+        }
+        let r = &self.st().registers;
+        if r.is_kernel && halts.contains(&r.program_counter) {
+            return Stop::Halted(r.program_counter);
+        }
+        Stop::OutOfSteps
+    }
+
+    pub fn regs(&self) -> Regs {
+        Regs::of(&self.st().registers)
+    }
+
+    pub fn clock(&self) -> usize {
+        self.it.clock
+    }
+
+    pub fn set_pc(&mut self, pc: usize) {
+        self.st_mut().registers.program_counter = pc;
+    }
+
+    pub fn set_kernel(&mut self, k: bool) {
+        self.st_mut().registers.is_kernel = k;
+    }
+
+    pub fn set_gas_used(&mut self, g: u64) {
+        self.st_mut().registers.gas_used = g;
+    }
+
+    /// Changes the current context without touching memory.
+    pub fn set_context(&mut self, ctx: usize) {
+        while self.st().memory.contexts.len() <= ctx {
+            self.st_mut()
+                .memory
+                .contexts
+                .push(MemoryContextState::default());
+        }
+        self.st_mut().registers.context = ctx;
+    }
+
+    pub fn contexts(&self) -> usize {
+        self.st().memory.contexts.len()
+    }
+
+    /// The stack of the current context, from bottom to top.
+    pub fn stack(&self) -> Vec<U256> {
+        let n = self.st().registers.stack_len;
+        (0..n)
+            .rev()
+            .map(|i| stack_peek(self.st(), i).unwrap())
+            .collect()
+    }
+
+    /// Replaces the stack of the current context.
+    pub fn set_stack(&mut self, stack: &[U256]) {
+        let ctx = self.st().registers.context;
+        let st = self.st_mut();
+        st.memory.contexts[ctx].segments[Segment::Stack.unscale()].content =
+            stack.iter().map(|&x| Some(x)).collect();
+        st.registers.stack_len = stack.len();
+        st.registers.stack_top = stack.last().copied().unwrap_or_default();
+        st.registers.is_stack_top_read = false;
+        st.registers.check_overflow = false;
+    }
+
+    pub fn get(&self, ctx: usize, segment: usize, virt: usize) -> U256 {
+        self.st().memory.get_with_init(MemoryAddress {
+            context: ctx,
+            segment,
+            virt,
+        })
+    }
+
+    pub fn is_set(&self, ctx: usize, segment: usize, virt: usize) -> bool {
+        self.st()
+            .memory
+            .get(MemoryAddress {
+                context: ctx,
+                segment,
+                virt,
+            })
+            .is_some()
+    }
+
+    pub fn set(&mut self, ctx: usize, segment: usize, virt: usize, v: U256) {
+        self.st_mut().memory.set(
+            MemoryAddress {
+                context: ctx,
+                segment,
+                virt,
+            },
+            v,
+        );
+    }
+
+    pub fn len(&self, ctx: usize, segment: usize) -> usize {
+        let m = &self.st().memory;
+        m.contexts
+            .get(ctx)
+            .map_or(0, |c| c.segments[segment].content.len())
+    }
+
+    pub fn clear(&mut self, ctx: usize, segment: usize) {
+        if let Some(c) = self.st_mut().memory.contexts.get_mut(ctx) {
+            c.segments[segment].content.clear();
+        }
+    }
+
+    /// All cells set in a segment.
+    pub fn cells(&self, ctx: usize, segment: usize) -> Vec<Option<U256>> {
+        let m = &self.st().memory;
+        m.contexts
+            .get(ctx)
+            .map_or(vec![], |c| c.segments[segment].content.clone())
+    }
+
+    pub fn set_cells(&mut self, ctx: usize, segment: usize, vals: &[U256]) {
+        while self.st().memory.contexts.len() <= ctx {
+            self.st_mut()
+                .memory
+                .contexts
+                .push(MemoryContextState::default());
+        }
+        self.st_mut().memory.contexts[ctx].segments[segment].content =
+            vals.iter().map(|&v| Some(v)).collect();
+    }
+
+    pub fn set_prover_queues(&mut self, rlp: Vec<U256>, withdrawals: Vec<U256>) {
+        self.st_mut().rlp_prover_inputs = rlp;
+        self.st_mut().withdrawal_prover_inputs = withdrawals;
+    }
+
+    pub fn prover_queues(&self) -> (Vec<U256>, Vec<U256>) {
+        (
+            self.st().rlp_prover_inputs.clone(),
+            self.st().withdrawal_prover_inputs.clone(),
+        )
+    }
+
+    /// Makes a contract's code known to the prover.
+    pub fn add_code(&mut self, hash: H256, code: Vec<u8>) {
+        self.st_mut().inputs.contract_code.insert(hash, code);
+    }
+
+    /// Loads tries as the prover does before a batch, the state trie included.
+    pub fn load_tries(&mut self, tries: &TrieInputs) -> Result<(), String> {
+        let st = self.st_mut();
+        st.state_ptrs = LinkedListsPtrs::default();
+        st.access_lists_ptrs = LinkedListsPtrs::default();
+        let (mut ptrs, accounts, storage, data) = load_linked_lists_and_txn_and_receipt_mpts(
+            &mut st.state_ptrs.accounts,
+            &mut st.state_ptrs.storage,
+            tries,
+        )
+        .map_err(|e| format!("{e:?}"))?;
+        let (na, ns) = (accounts.len(), storage.len());
+        let ctx0 = &mut st.memory.contexts[0];
+        ctx0.segments[Segment::AccountsLinkedList.unscale()].content = accounts;
+        ctx0.segments[Segment::StorageLinkedList.unscale()].content = storage;
+        let td = &mut ctx0.segments[Segment::TrieData.unscale()].content;
+        *td = data;
+        if ptrs.state_root_ptr.is_none() {
+            ptrs.state_root_ptr =
+                Some(load_state_mpt(&tries.trim(), td).map_err(|e| format!("{e:?}"))?);
+        }
+        for c in td.iter_mut() {
+            if c.is_none() {
+                *c = Some(U256::zero());
+            }
+        }
+        let nt = td.len();
+        st.trie_root_ptrs = ptrs.clone();
+        let a = Segment::AccountsLinkedList as usize + na;
+        let s = Segment::StorageLinkedList as usize + ns;
+        for (f, v) in [
+            (GlobalMetadata::AccountsLinkedListNextAvailable, a),
+            (GlobalMetadata::InitialAccountsLinkedListLen, a),
+            (GlobalMetadata::StorageLinkedListNextAvailable, s),
+            (GlobalMetadata::InitialStorageLinkedListLen, s),
+            (GlobalMetadata::TrieDataSize, nt),
+            (
+                GlobalMetadata::StateTrieRoot,
+                ptrs.state_root_ptr.unwrap_or_default(),
+            ),
+            (GlobalMetadata::TransactionTrieRoot, ptrs.txn_root_ptr),
+            (GlobalMetadata::ReceiptTrieRoot, ptrs.receipt_root_ptr),
+        ] {
+            self.it.set_global_metadata_multi_fields(&[(f, v.into())]);
+        }
+        Ok(())
+    }
+
+    pub fn stale_contexts(&self) -> Vec<usize> {
+        self.st().stale_contexts.clone()
+    }
+
+    pub fn save(&self) -> Snapshot {
+        let st = self.st();
+        let contexts = st
+            .memory
+            .contexts
+            .iter()
+            .enumerate()
+            .map(|(i, c)| MemoryContextState {
+                segments: std::array::from_fn(|s| {
+                    if (i, s) == (0, CODE) {
+                        MemorySegmentState::default()
+                    } else {
+                        c.segments[s].clone()
+                    }
+                }),
+            })
+            .collect();
+        Snapshot {
+            inputs: st.inputs.clone(),
+            registers: st.registers,
+            contexts,
+            preinitialized: st.memory.preinitialized_segments.clone(),
+            next_txn_index: st.next_txn_index,
+            stale_contexts: st.stale_contexts.clone(),
+            rlp: st.rlp_prover_inputs.clone(),
+            withdrawals: st.withdrawal_prover_inputs.clone(),
+            ger: st.ger_prover_inputs.clone(),
+            bignum: st.bignum_modmul_result_limbs.clone(),
+            trie_root_ptrs: st.trie_root_ptrs.clone(),
+            jumpdest_table: st.jumpdest_table.clone(),
+            access_lists_ptrs: st.access_lists_ptrs.clone(),
+            state_ptrs: st.state_ptrs.clone(),
+            clock: self.it.clock,
+        }
+    }
+
+    pub fn load(&mut self, s: &Snapshot) {
+        self.it.clock = s.clock;
+        let st = self.st_mut();
+        let code = std::mem::take(&mut st.memory.contexts[0].segments[CODE]);
+        st.memory = MemoryState {
+            contexts: s.contexts.clone(),
+            preinitialized_segments: s.preinitialized.clone(),
+        };
+        st.memory.contexts[0].segments[CODE] = code;
+        st.inputs = s.inputs.clone();
+        st.registers = s.registers;
+        st.traces = Traces::default();
+        st.next_txn_index = s.next_txn_index;
+        st.stale_contexts = s.stale_contexts.clone();
+        st.rlp_prover_inputs = s.rlp.clone();
+        st.withdrawal_prover_inputs = s.withdrawals.clone();
+        st.ger_prover_inputs = s.ger.clone();
+        st.bignum_modmul_result_limbs = s.bignum.clone();
+        st.trie_root_ptrs = s.trie_root_ptrs.clone();
+        st.jumpdest_table = s.jumpdest_table.clone();
+        st.access_lists_ptrs = s.access_lists_ptrs.clone();
+        st.state_ptrs = s.state_ptrs.clone();
+    }
+
+    /// A second machine in the same state.
+    pub fn fork(&self) -> Self {
+        let mut v = Self::new(0, vec![]);
+        v.load(&self.save());
+        v
+    }
+}
-- 
2.43.0


From 61e09f93ee589b2d10b11c01c0ff314c48a8616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 10/48] fix: do not allocate interpreter memory for reads of
 unset cells

---
 evm_arithmetization/src/cpu/kernel/interpreter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/interpreter.rs b/evm_arithmetization/src/cpu/kernel/interpreter.rs
index d974550..5cf6d83 100644
--- a/evm_arithmetization/src/cpu/kernel/interpreter.rs
+++ b/evm_arithmetization/src/cpu/kernel/interpreter.rs
@@ -410,10 +410,14 @@ impl<F: RichField> Interpreter<F> {
             match kind {
                 MemoryOpKind::Read => {
                     if self.generation_state.memory.get(address).is_none() {
-                        if !self.is_preinitialized_segment(address.segment) && !value.is_zero() {
+                        if self.is_preinitialized_segment(address.segment) {
+                            self.generation_state.memory.set(address, value);
+                        } else if !value.is_zero() {
+                            // Unset memory reads as zero without being recorded: doing so would
+                            // allocate all cells below the address, which user code chooses
+                            // freely below 2^32 when shifting (see `append_shift`).
                             return Err(anyhow!("The initial value {:?} at address {:?} should be zero, because it is not preinitialized.", value, address));
                         }
-                        self.generation_state.memory.set(address, value);
                     }
                 }
                 MemoryOpKind::Write => self.generation_state.memory.set(address, value),
-- 
2.43.0


From 090bb3e7b8aa9cede8d9040fefc1b0f63e794f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:42 +0000
Subject: [PATCH 11/48] fix: subtract modulo small moduli in bounded time

---
 evm_arithmetization/src/util.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/util.rs b/evm_arithmetization/src/util.rs
index a9aae2d..d666a97 100644
--- a/evm_arithmetization/src/util.rs
+++ b/evm_arithmetization/src/util.rs
@@ -159,13 +159,10 @@ pub(crate) fn submod(x: U256, y: U256, m: U256) -> U256 {
     if m.is_zero() {
         return m;
     }
-    let mut x = u256_to_biguint(x);
+    let x = u256_to_biguint(x);
     let y = u256_to_biguint(y);
     let m = u256_to_biguint(m);
-    while x < y {
-        x += &m;
-    }
-    biguint_to_u256((x - y) % m)
+    biguint_to_u256((x + (&m - y % &m)) % m)
 }
 
 pub(crate) fn u256_to_biguint(x: U256) -> BigUint {
-- 
2.43.0


From 8342119b96600a0563b3598aa6a9f4663496ad6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 12/48] fix: constrain the quotient of a division by zero to be
 zero

---
 evm_arithmetization/src/arithmetic/divmod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/evm_arithmetization/src/arithmetic/divmod.rs b/evm_arithmetization/src/arithmetic/divmod.rs
index 30c7af8..2363cfa 100644
--- a/evm_arithmetization/src/arithmetic/divmod.rs
+++ b/evm_arithmetization/src/arithmetic/divmod.rs
@@ -107,6 +107,13 @@ pub(crate) fn eval_packed_divmod_helper<P: PackedField>(
     };
     let rem = read_value(lv, rem_range);
 
+    // If the denominator is zero in a DIV or SHR, the quotient must be zero. As its
+    // limbs are range-checked, it suffices to check that their sum vanishes.
+    // The constraint polynomial below does not ensure this, since it only
+    // verifies that num = quo + rem in that case.
+    let quo_limb_sum = quo.into_iter().sum::<P>();
+    yield_constr.constraint_transition(filter * nv[MODULAR_DIV_DENOM_IS_ZERO] * quo_limb_sum);
+
     let mut constr_poly = modular_constr_poly(lv, nv, yield_constr, filter, rem, den, quo);
 
     let input = num;
@@ -167,6 +174,10 @@ pub(crate) fn eval_ext_circuit_divmod_helper<F: RichField + Extendable<D>, const
     };
     let rem = read_value(lv, rem_range);
 
+    let quo_limb_sum = builder.add_many_extension(quo);
+    let t = builder.mul_many_extension([filter, nv[MODULAR_DIV_DENOM_IS_ZERO], quo_limb_sum]);
+    yield_constr.constraint_transition(builder, t);
+
     let mut constr_poly =
         modular_constr_poly_ext_circuit(lv, nv, builder, yield_constr, filter, rem, den, quo);
 
-- 
2.43.0


From 32e0dd1a6871351322802f7c50640bc8f6fa6e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 13/48] fix: tell range checks from arithmetic operations in
 the arithmetic lookup

---
 evm_arithmetization/src/arithmetic/arithmetic_stark.rs | 10 +++++-----
 evm_arithmetization/src/cpu/cpu_stark.rs               |  6 ++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
index 2b7eb25..b2bfc9d 100644
--- a/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
+++ b/evm_arithmetization/src/arithmetic/arithmetic_stark.rs
@@ -109,11 +109,11 @@ pub(crate) fn ctl_arithmetic_rows<F: Field>() -> TableWithColumns<F> {
     // by `regs`, where each element of `regs` is a range of columns
     // corresponding to a 256-bit input or output register (also `ops`
     // is used as the operation filter).
-    TableWithColumns::new(
-        *Table::Arithmetic,
-        cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP),
-        filter,
-    )
+    let mut columns = cpu_arith_data_link(&all_combined_cols, &REGISTER_MAP);
+    // A range check must not be mistaken for the arithmetic operation whose opcode
+    // is in `OPCODE_COL`.
+    columns.push(Column::single(columns::IS_RANGE_CHECK));
+    TableWithColumns::new(*Table::Arithmetic, columns, filter)
 }
 
 /// Structure representing the `Arithmetic` STARK, which carries out all the
diff --git a/evm_arithmetization/src/cpu/cpu_stark.rs b/evm_arithmetization/src/cpu/cpu_stark.rs
index a0dd45e..6f7c351 100644
--- a/evm_arithmetization/src/cpu/cpu_stark.rs
+++ b/evm_arithmetization/src/cpu/cpu_stark.rs
@@ -108,6 +108,12 @@ pub(crate) fn ctl_arithmetic_base_rows<F: Field>() -> TableWithColumns<F> {
     // directly.
     let mut columns = vec![Column::le_bits(COL_MAP.opcode_bits)];
     columns.extend(ctl_data_ternops());
+    // These only require their operands to be range-checked.
+    columns.push(Column::sum([
+        COL_MAP.op.push_prover_input,
+        COL_MAP.op.syscall,
+        COL_MAP.op.exception,
+    ]));
     // Create the CPU Table whose columns are those with the three
     // inputs and one output of the ternary operations listed in `ops`
     // (also `ops` is used as the operation filter). The list of
-- 
2.43.0


From 35536bfa855a270e5333a382816046d92850d3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 14/48] fix: constrain the bits of the Keccak permutation to be
 bits

The constraints evaluate xor and and-not arithmetically, which is only right on
bits, but nothing forced the entries of C, A' and the decomposition of A''[0, 0]
to be any. A prover could pick other field elements that satisfy all
constraints and end with an output that is not the permutation of the input.
---
 .../src/keccak/keccak_stark.rs                | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/evm_arithmetization/src/keccak/keccak_stark.rs b/evm_arithmetization/src/keccak/keccak_stark.rs
index 0a086d0..3358359 100644
--- a/evm_arithmetization/src/keccak/keccak_stark.rs
+++ b/evm_arithmetization/src/keccak/keccak_stark.rs
@@ -288,6 +288,24 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakStark<F
             sum_round_flags * not_final_step * (next_values[TIMESTAMP] - local_values[TIMESTAMP]),
         );
 
+        // The entries of C, A' and the decomposition of A''[0, 0] must be bits: the
+        // arithmetic forms of the logical operations below rely on it. C' is then
+        // made of bits as well, being the xor of bits of C.
+        for x in 0..5 {
+            for z in 0..64 {
+                let c = local_values[reg_c(x, z)];
+                yield_constr.constraint(c * (c - P::ONES));
+                for y in 0..5 {
+                    let a_prime = local_values[reg_a_prime(x, y, z)];
+                    yield_constr.constraint(a_prime * (a_prime - P::ONES));
+                }
+            }
+        }
+        for i in 0..64 {
+            let bit = local_values[reg_a_prime_prime_0_0_bit(i)];
+            yield_constr.constraint(bit * (bit - P::ONES));
+        }
+
         // C'[x, z] = xor(C[x, z], C[x - 1, z], C[x + 1, z - 1]).
         for x in 0..5 {
             for z in 0..64 {
@@ -452,6 +470,25 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakStark<F
         let constr = builder.mul_many_extension([sum_round_flags, not_final_step, diff]);
         yield_constr.constraint(builder, constr);
 
+        // The entries of C, A' and the decomposition of A''[0, 0] must be bits.
+        for x in 0..5 {
+            for z in 0..64 {
+                let c = local_values[reg_c(x, z)];
+                let constr = builder.mul_sub_extension(c, c, c);
+                yield_constr.constraint(builder, constr);
+                for y in 0..5 {
+                    let a_prime = local_values[reg_a_prime(x, y, z)];
+                    let constr = builder.mul_sub_extension(a_prime, a_prime, a_prime);
+                    yield_constr.constraint(builder, constr);
+                }
+            }
+        }
+        for i in 0..64 {
+            let bit = local_values[reg_a_prime_prime_0_0_bit(i)];
+            let constr = builder.mul_sub_extension(bit, bit, bit);
+            yield_constr.constraint(builder, constr);
+        }
+
         // C'[x, z] = xor(C[x, z], C[x - 1, z], C[x + 1, z - 1]).
         for x in 0..5 {
             for z in 0..64 {
-- 
2.43.0


From 3b97ad71b27e2f2709ffbbed521e37eb219822a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 15/48] fix: range-check the digest bytes of the Keccak sponge

The digest is constrained as little-endian limbs by the permutation and exposed
as big-endian limbs to the processor, both combined from the same cells. These
were never forced to be bytes, so cells could be chosen that agree with the
permutation and expose any digest whatever.
---
 .../src/keccak_sponge/keccak_sponge_stark.rs    | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
index 26cc764..9c72d3d 100644
--- a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
+++ b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
@@ -499,6 +499,16 @@ impl<F: RichField + Extendable<D>, const D: usize> KeccakSpongeStark<F, D> {
         KeccakSpongeColumnsView::default().into()
     }
 
+    /// The columns holding bytes: those of the block being absorbed, and those
+    /// of the digest, whose bytes are exposed in another order than the one in
+    /// which the permutation constrains them.
+    fn range_checked_columns() -> impl Iterator<Item = usize> {
+        KECCAK_SPONGE_COL_MAP
+            .block_bytes
+            .into_iter()
+            .chain(KECCAK_SPONGE_COL_MAP.updated_digest_state_bytes)
+    }
+
     /// Expects input in *column*-major layout
     fn generate_range_checks(&self, cols: &mut [Vec<F>]) {
         debug_assert!(cols.len() == NUM_KECCAK_SPONGE_COLUMNS);
@@ -517,8 +527,7 @@ impl<F: RichField + Extendable<D>, const D: usize> KeccakSpongeStark<F, D> {
         // For each column c in cols, generate the range-check
         // permutations and put them in the corresponding range-check
         // columns rc_c and rc_c+1.
-        for col in 0..KECCAK_RATE_BYTES {
-            let c = KECCAK_SPONGE_COL_MAP.block_bytes[col];
+        for c in Self::range_checked_columns() {
             for i in 0..n_rows {
                 let x = cols[c][i].to_canonical_u64() as usize;
                 assert!(
@@ -945,10 +954,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
 
     fn lookups(&self) -> Vec<Lookup<F>> {
         vec![Lookup {
-            columns: Column::singles(KECCAK_SPONGE_COL_MAP.block_bytes).collect(),
+            columns: Column::singles(Self::range_checked_columns()).collect(),
             table_column: Column::single(KECCAK_SPONGE_COL_MAP.range_counter),
             frequencies_column: Column::single(KECCAK_SPONGE_COL_MAP.rc_frequencies),
-            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES],
+            filter_columns: vec![Default::default(); KECCAK_RATE_BYTES + KECCAK_DIGEST_BYTES],
         }]
     }
 
-- 
2.43.0


From a14914e9eecc6978926220feaa1a7f5780f827fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:22 +0000
Subject: [PATCH 16/48] fix: check the padding of the Keccak sponge in the last
 row too

The padding bytes were constrained on all rows but the last one of the table,
where a final block could thus absorb anything for its padding.
---
 .../src/keccak_sponge/keccak_sponge_stark.rs  | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
index 9c72d3d..8b2aa18 100644
--- a/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
+++ b/evm_arithmetization/src/keccak_sponge/keccak_sponge_stark.rs
@@ -680,7 +680,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
 
         // If the row has a single padding byte, then it must be the last byte with
         // value 0b10000001.
-        yield_constr.constraint_transition(
+        yield_constr.constraint(
             has_single_padding_byte
                 * (local_values.block_bytes[KECCAK_RATE_BYTES - 1]
                     - P::from(FE::from_canonical_u8(0b10000001))),
@@ -695,19 +695,18 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 }
             };
             // If the row has multiple padding bytes, the first padding byte must be 1.
-            yield_constr.constraint_transition(
-                is_first_padding_byte * (local_values.block_bytes[i] - P::ONES),
-            );
+            yield_constr
+                .constraint(is_first_padding_byte * (local_values.block_bytes[i] - P::ONES));
             // If the row has multiple padding bytes, the other padding bytes
             // except the last one must be 0.
-            yield_constr.constraint_transition(
+            yield_constr.constraint(
                 local_values.is_padding_byte[i]
                     * (is_first_padding_byte - P::ONES)
                     * local_values.block_bytes[i],
             );
         }
         // If the row has multiple padding bytes, then the last byte must be 0b10000000.
-        yield_constr.constraint_transition(
+        yield_constr.constraint(
             is_final_block
                 * (has_single_padding_byte - P::ONES)
                 * (local_values.block_bytes[KECCAK_RATE_BYTES - 1]
@@ -891,7 +890,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
             padding_byte,
         );
         let constraint = builder.mul_extension(has_single_padding_byte, diff);
-        yield_constr.constraint_transition(builder, constraint);
+        yield_constr.constraint(builder, constraint);
 
         for i in 0..KECCAK_RATE_BYTES - 1 {
             let is_first_padding_byte = {
@@ -910,7 +909,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 local_values.block_bytes[i],
                 is_first_padding_byte,
             );
-            yield_constr.constraint_transition(builder, constraint);
+            yield_constr.constraint(builder, constraint);
 
             // If the row has multiple padding bytes, the other padding bytes
             // except the last one must be 0.
@@ -920,7 +919,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
                 local_values.is_padding_byte[i],
             );
             let constraint = builder.mul_extension(sel, local_values.block_bytes[i]);
-            yield_constr.constraint_transition(builder, constraint);
+            yield_constr.constraint(builder, constraint);
         }
 
         // If the row has multiple padding bytes, then the last byte must be 0b10000000.
@@ -932,7 +931,7 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for KeccakSpongeS
             padding_byte,
         );
         let constraint = builder.mul_extension(sel, diff);
-        yield_constr.constraint_transition(builder, constraint);
+        yield_constr.constraint(builder, constraint);
 
         // A dummy row is always followed by another dummy row, so the prover can't put
         // dummy rows "in between" to avoid the above checks.
-- 
2.43.0


From 4869e6048355e6f6a09b5b9947c615c5e3d57ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 17/48] fix: a proof that a byte is no jump destination must
 end before it

The prover gave the address of the closest opcode, where the kernel expects
the start of a checked prefix of 32 bytes: a jump into the data of a push
could make the kernel panic. The kernel accepted prefixes ending after the
address, so that a valid destination could be passed for an invalid one.
---
 .../cpu/kernel/asm/core/jumpdest_analysis.asm | 14 ++++--
 .../src/generation/prover_input.rs            | 48 ++++++++-----------
 2 files changed, 32 insertions(+), 30 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
index 842d794..006ba58 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
@@ -267,11 +267,19 @@ global verify_non_jumpdest:
     // stack: addr, ctx
     PROVER_INPUT(jumpdest_table::non_jumpdest_proof)
     // stack: proof, addr, ctx,
-    // Check that proof <= addr as otherwise it allows
-    // a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
-    // at position addr while it shouldn't.
+    // Check that the path to be verified starts at or before addr, as otherwise
+    // it allows a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
+    // at position addr while it shouldn't. A non-zero proof is the start of a
+    // prefix of 32 bytes, and the path starts after it.
     DUP2 DUP2
     %assert_le
+    DUP2 DUP2
+    // stack: proof, addr, proof, addr, ctx
+    ISZERO ISZERO %shl_const(5)
+    // stack: 32 * (proof != 0), addr, proof, addr, ctx
+    DUP3 ADD
+    // stack: path_start, addr, proof, addr, ctx
+    %assert_le
     %write_table_if_jumpdest
     JUMP
 
diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index 704e2f4..ffa18b2 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -395,17 +395,17 @@ impl<F: RichField> GenerationState<F> {
     }
 
     /// Returns a non-jumpdest proof for the address on the top of the stack. A
-    /// non-jumpdest proof is the closest address to the address on the top of
-    /// the stack, if the closest address is >= 32, or zero otherwise.
+    /// non-jumpdest proof is the start of a prefix of 32 bytes which contains
+    /// no PUSHXX reaching beyond it, and which ends at or before the address,
+    /// if there is one, or zero otherwise.
     fn run_next_non_jumpdest_proof(&self) -> Result<U256, ProgramError> {
         let code = self.get_current_code()?;
         let address = u256_to_usize(stack_peek(self, 0)?)?;
-        let closest_opcode_addr = get_closest_opcode_address(&code, address);
-        Ok(if closest_opcode_addr < 32 {
-            U256::zero()
-        } else {
-            closest_opcode_addr.into()
-        })
+        let proof = CodeIterator::until(&code, address + 1)
+            .filter_map(|(addr, _opcode)| get_prefix_start(&code, addr))
+            .last()
+            .unwrap_or(0);
+        Ok(proof.into())
     }
 
     /// Returns a pointer to an element in the list whose value is such that
@@ -860,21 +860,10 @@ fn get_proofs_and_jumpdests(
     largest_address: usize,
     jumpdest_table: std::collections::BTreeSet<usize>,
 ) -> Vec<usize> {
-    const PUSH1_OPCODE: u8 = 0x60;
-    const PUSH32_OPCODE: u8 = 0x7f;
     let (proofs, _) = CodeIterator::until(code, largest_address + 1).fold(
         (vec![], 0),
         |(mut proofs, last_proof), (addr, _opcode)| {
-            let has_prefix = if let Some(prefix_start) = addr.checked_sub(32) {
-                code[prefix_start..addr]
-                    .iter()
-                    .rev()
-                    .zip(0..32)
-                    .all(|(&byte, i)| byte > PUSH32_OPCODE || byte < PUSH1_OPCODE + i)
-            } else {
-                false
-            };
-            let last_proof = if has_prefix { addr - 32 } else { last_proof };
+            let last_proof = get_prefix_start(code, addr).unwrap_or(last_proof);
             if jumpdest_table.contains(&addr) {
                 // Push the proof
                 proofs.push(last_proof);
@@ -887,13 +876,18 @@ fn get_proofs_and_jumpdests(
     proofs
 }
 
-/// Return the largest prev_addr in `code` such that `code[pred_addr]` is an
-/// opcode (and not the argument of some PUSHXX) and pred_addr <= address
-fn get_closest_opcode_address(code: &[u8], address: usize) -> usize {
-    let (prev_addr, _) = CodeIterator::until(code, address + 1)
-        .last()
-        .unwrap_or((0, 0));
-    prev_addr
+/// Returns the start of the 32 bytes before `addr` if none of them (including
+/// opcodes and pushed bytes) is a PUSHXX with `addr` in its range.
+fn get_prefix_start(code: &[u8], addr: usize) -> Option<usize> {
+    const PUSH1_OPCODE: u8 = 0x60;
+    const PUSH32_OPCODE: u8 = 0x7f;
+    let prefix_start = addr.checked_sub(32)?;
+    code[prefix_start..addr]
+        .iter()
+        .rev()
+        .zip(0..32)
+        .all(|(&byte, i)| byte > PUSH32_OPCODE || byte < PUSH1_OPCODE + i)
+        .then_some(prefix_start)
 }
 
 /// An iterator over the EVM code contained in `code`, which skips the bytes
-- 
2.43.0


From 220c872af38a1a53c3ef9942b4f772714e8c3dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 18/48] fix: creation code may jump anywhere within its maximal
 size

Jump destinations were limited by the size of deployed code, but creation
code may be twice as long: valid jumps beyond 24576 bytes failed.
---
 evm_arithmetization/src/cpu/kernel/asm/core/exception.asm | 4 ++--
 evm_arithmetization/src/cpu/kernel/constants/mod.rs       | 5 ++++-
 evm_arithmetization/src/witness/transition.rs             | 6 +++---
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index bea641c..8c82e6f 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -130,10 +130,10 @@ global invalid_jump_jumpi_destination_common:
         // We have a jump destination on the stack. We want to `PANIC` if it is valid, and jump to
         // `fault_exception` if it is not. An address is a valid jump destination if it points to a
         // `JUMPDEST` instruction. In practice, we check two things:
-        //  1. the address is no greater than MAX_CODE_SIZE, and
+        //  1. the address is no greater than MAX_INITCODE_SIZE (which also covers deployed code), and
         //  2. it points to a `JUMPDEST` instruction.
         // stack: jump_dest
-        PUSH @MAX_CODE_SIZE
+        PUSH @MAX_INITCODE_SIZE
         DUP2
         // stack: jump_dest, max_size, jump_dest
         GT // jump_dest > max_size == !(jump_dest <= max_size)
diff --git a/evm_arithmetization/src/cpu/kernel/constants/mod.rs b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
index 91c2a0a..171f5f6 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/mod.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
@@ -377,9 +377,12 @@ pub(crate) const MAX_CODE_SIZE: u64 = if cfg!(feature = "polygon_pos") {
     0x6000 // default Ethereum value
 };
 
+/// The longest code that can be executed, see EIP-3860.
+pub(crate) const MAX_INITCODE_SIZE: u64 = 0xc000;
+
 const CODE_SIZE_LIMIT: [(&str, u64); 3] = [
     ("MAX_CODE_SIZE", MAX_CODE_SIZE),
-    ("MAX_INITCODE_SIZE", 0xc000),
+    ("MAX_INITCODE_SIZE", MAX_INITCODE_SIZE),
     ("INITCODE_WORD_COST", 2),
 ];
 
diff --git a/evm_arithmetization/src/witness/transition.rs b/evm_arithmetization/src/witness/transition.rs
index fdcf9af..1affc53 100644
--- a/evm_arithmetization/src/witness/transition.rs
+++ b/evm_arithmetization/src/witness/transition.rs
@@ -6,7 +6,7 @@ use super::util::stack_pop_with_log_and_fill;
 use crate::cpu::columns::CpuColumnsView;
 use crate::cpu::kernel::aggregator::KERNEL;
 use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
-use crate::cpu::kernel::constants::MAX_CODE_SIZE;
+use crate::cpu::kernel::constants::MAX_INITCODE_SIZE;
 use crate::cpu::kernel::opcodes::get_opcode;
 use crate::cpu::membus::NUM_GP_CHANNELS;
 use crate::cpu::stack::{
@@ -384,7 +384,7 @@ where
             .try_into()
             .map_err(|_| ProgramError::InvalidJumpDestination)?;
 
-        if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+        if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
             return Err(ProgramError::InvalidJumpDestination);
         }
 
@@ -456,7 +456,7 @@ where
                 .try_into()
                 .map_err(|_| ProgramError::InvalidJumpiDestination)?;
 
-            if !self.is_kernel() && dst > MAX_CODE_SIZE as u32 {
+            if !self.is_kernel() && dst > MAX_INITCODE_SIZE as u32 {
                 return Err(ProgramError::InvalidJumpiDestination);
             }
 
-- 
2.43.0


From 5b4a7195159ea29f678a1c9bb8e492b7ac63e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 19/48] fix: accept the same proofs that a byte is no jump
 destination as before

An existing test relies on the kernel accepting a prefix which ends after the
address, so only the prover's side of the previous change is kept.
---
 .../src/cpu/kernel/asm/core/jumpdest_analysis.asm  | 14 +++-----------
 evm_arithmetization/src/generation/prover_input.rs |  7 ++++++-
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
index 006ba58..842d794 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/jumpdest_analysis.asm
@@ -267,19 +267,11 @@ global verify_non_jumpdest:
     // stack: addr, ctx
     PROVER_INPUT(jumpdest_table::non_jumpdest_proof)
     // stack: proof, addr, ctx,
-    // Check that the path to be verified starts at or before addr, as otherwise
-    // it allows a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
-    // at position addr while it shouldn't. A non-zero proof is the start of a
-    // prefix of 32 bytes, and the path starts after it.
+    // Check that proof <= addr as otherwise it allows
+    // a malicious prover to leave `@SEGMENT_JUMPDEST_BITS` as 0
+    // at position addr while it shouldn't.
     DUP2 DUP2
     %assert_le
-    DUP2 DUP2
-    // stack: proof, addr, proof, addr, ctx
-    ISZERO ISZERO %shl_const(5)
-    // stack: 32 * (proof != 0), addr, proof, addr, ctx
-    DUP3 ADD
-    // stack: path_start, addr, proof, addr, ctx
-    %assert_le
     %write_table_if_jumpdest
     JUMP
 
diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index ffa18b2..e7be97c 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -397,10 +397,15 @@ impl<F: RichField> GenerationState<F> {
     /// Returns a non-jumpdest proof for the address on the top of the stack. A
     /// non-jumpdest proof is the start of a prefix of 32 bytes which contains
     /// no PUSHXX reaching beyond it, and which ends at or before the address,
-    /// if there is one, or zero otherwise.
+    /// if there is one, or zero otherwise. There is no proof for a jumpdest,
+    /// whose own address is returned (zero below 32).
     fn run_next_non_jumpdest_proof(&self) -> Result<U256, ProgramError> {
         let code = self.get_current_code()?;
         let address = u256_to_usize(stack_peek(self, 0)?)?;
+        const JUMPDEST_OPCODE: u8 = 0x5b;
+        if CodeIterator::until(&code, address + 1).last() == Some((address, JUMPDEST_OPCODE)) {
+            return Ok(if address < 32 { 0 } else { address }.into());
+        }
         let proof = CodeIterator::until(&code, address + 1)
             .filter_map(|(addr, _opcode)| get_prefix_start(&code, addr))
             .last()
-- 
2.43.0


From 3bfcf65eaea7bd95fe70a8e72f89d64174d28543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 20/48] verif hooks: cut an execution from any of its states

---
 .../src/generation/segments.rs                | 15 ++++++
 evm_arithmetization/src/verif_hooks/tables.rs | 31 ++++++++-----
 evm_arithmetization/src/verif_hooks/vm.rs     | 46 ++++++++++++++++++-
 3 files changed, 79 insertions(+), 13 deletions(-)

diff --git a/evm_arithmetization/src/generation/segments.rs b/evm_arithmetization/src/generation/segments.rs
index 1df63af..558158e 100644
--- a/evm_arithmetization/src/generation/segments.rs
+++ b/evm_arithmetization/src/generation/segments.rs
@@ -201,6 +201,21 @@ impl<F: RichField> SegmentDataIterator<F> {
     }
 }
 
+#[cfg(verif_hooks)]
+impl<F: RichField> SegmentDataIterator<F> {
+    /// Cuts the rest of an execution.
+    pub(crate) fn resume(
+        inputs: &GenerationInputs<F>,
+        data: GenerationSegmentData,
+        stale_contexts: Vec<usize>,
+    ) -> Self {
+        let mut it = Self::new(inputs, data.max_cpu_len_log);
+        it.interpreter.generation_state.stale_contexts = stale_contexts;
+        it.partial_next_data = Some(data);
+        it
+    }
+}
+
 /// Returned type from a `SegmentDataIterator`, needed to prove all segments in
 /// a transaction batch.
 pub type AllData<F> =
diff --git a/evm_arithmetization/src/verif_hooks/tables.rs b/evm_arithmetization/src/verif_hooks/tables.rs
index b7817f1..b612662 100644
--- a/evm_arithmetization/src/verif_hooks/tables.rs
+++ b/evm_arithmetization/src/verif_hooks/tables.rs
@@ -546,21 +546,11 @@ pub struct SegmentView {
     pub index: usize,
     pub before: Regs,
     pub after: Regs,
-    pub memory: Vec<((usize, usize, usize), U256)>,
+    pub memory: Vec<Vec<Vec<Option<U256>>>>,
     pub preinitialized: Vec<(usize, Vec<Option<U256>>)>,
 }
 
 pub fn segment_view(d: &GenerationSegmentData) -> SegmentView {
-    let mut memory = vec![];
-    for (c, ctx) in d.memory.contexts.iter().enumerate() {
-        for (s, seg) in ctx.segments.iter().enumerate() {
-            for (i, v) in seg.content.iter().enumerate() {
-                if let Some(v) = *v {
-                    memory.push(((c, s, i), v));
-                }
-            }
-        }
-    }
     let mut preinitialized: Vec<_> = d
         .memory
         .preinitialized_segments
@@ -572,7 +562,24 @@ pub fn segment_view(d: &GenerationSegmentData) -> SegmentView {
         index: d.segment_index,
         before: Regs::of(&d.registers_before),
         after: Regs::of(&d.registers_after),
-        memory,
+        memory: d
+            .memory
+            .contexts
+            .iter()
+            .enumerate()
+            .map(|(i, c)| {
+                let code = (i, Segment::Code.unscale());
+                c.segments
+                    .iter()
+                    .enumerate()
+                    // The kernel is left out.
+                    .map(|(s, seg)| match (i, s) == code {
+                        true if i == 0 => vec![],
+                        _ => seg.content.clone(),
+                    })
+                    .collect()
+            })
+            .collect(),
         preinitialized,
     }
 }
diff --git a/evm_arithmetization/src/verif_hooks/vm.rs b/evm_arithmetization/src/verif_hooks/vm.rs
index 5ca94bb..b62b0ec 100644
--- a/evm_arithmetization/src/verif_hooks/vm.rs
+++ b/evm_arithmetization/src/verif_hooks/vm.rs
@@ -11,12 +11,13 @@ use crate::cpu::kernel::constants::context_metadata::ContextMetadata;
 use crate::cpu::kernel::constants::evm_constants;
 use crate::cpu::kernel::constants::global_metadata::GlobalMetadata;
 use crate::cpu::kernel::constants::txn_fields::NormalizedTxnField;
-use crate::cpu::kernel::interpreter::Interpreter;
+use crate::cpu::kernel::interpreter::{ExtraSegmentData, Interpreter};
 use crate::cpu::kernel::parser::parse;
 use crate::generation::linked_list::LinkedListsPtrs;
 use crate::generation::mpt::{
     load_linked_lists_and_txn_and_receipt_mpts, load_state_mpt, TrieRootPtrs,
 };
+use crate::generation::segments::{GenerationSegmentData, SegmentDataIterator};
 use crate::generation::state::{GenerationState, State};
 use crate::generation::{GenerationInputs, TrieInputs, TrimmedGenerationInputs};
 use crate::memory::segments::Segment;
@@ -466,6 +467,49 @@ impl Vm {
         st.state_ptrs = s.state_ptrs.clone();
     }
 
+    /// The rest of the execution in segments, as if one had just ended.
+    pub fn segments(
+        &self,
+        inputs: &GenerationInputs<F>,
+        max_cpu_len_log: Option<usize>,
+    ) -> SegmentDataIterator<F> {
+        let st = self.st();
+        let mut memory = st.memory.clone();
+        let r = st.registers;
+        if r.stack_len > 0 {
+            memory.set(
+                MemoryAddress::new(r.context, Segment::Stack, r.stack_len - 1),
+                r.stack_top,
+            );
+        }
+        let data = GenerationSegmentData {
+            segment_index: 0,
+            registers_before: r,
+            registers_after: r,
+            memory,
+            extra_data: ExtraSegmentData {
+                bignum_modmul_result_limbs: st.bignum_modmul_result_limbs.clone(),
+                rlp_prover_inputs: st.rlp_prover_inputs.clone(),
+                withdrawal_prover_inputs: st.withdrawal_prover_inputs.clone(),
+                ger_prover_inputs: st.ger_prover_inputs.clone(),
+                trie_root_ptrs: st.trie_root_ptrs.clone(),
+                jumpdest_table: st.jumpdest_table.clone(),
+                access_lists_ptrs: st.access_lists_ptrs.clone(),
+                state_ptrs: st.state_ptrs.clone(),
+                next_txn_index: st.next_txn_index,
+            },
+            max_cpu_len_log,
+        };
+        SegmentDataIterator::resume(inputs, data, st.stale_contexts.clone())
+    }
+
+    pub fn cells_ref(&self, ctx: usize, segment: usize) -> &[Option<U256>] {
+        let m = &self.st().memory;
+        m.contexts
+            .get(ctx)
+            .map_or(&[], |c| &c.segments[segment].content)
+    }
+
     /// A second machine in the same state.
     pub fn fork(&self) -> Self {
         let mut v = Self::new(0, vec![]);
-- 
2.43.0


From 70da8b52548e7ff81f9b49880f3d237cc1a6ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 21/48] fix: cutting an execution within %stack_length must not
 change what it reads

init and exc_stop overwrite the stack size stored in the current context. When
a segment ended between its being stored and being read in %stack_length, the
kernel panicked at every stack underflow and overflow, or could be made to
accept an overflow that did not happen.
---
 .../src/cpu/kernel/asm/core/exception.asm         | 15 +++++++++++----
 evm_arithmetization/src/cpu/kernel/asm/main.asm   | 15 +++++++++++----
 evm_arithmetization/src/generation/mod.rs         |  4 ++--
 3 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
index 8c82e6f..db4d27a 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/exception.asm
@@ -176,14 +176,19 @@ global exc_stack_overflow_check_stack_length:
 global exc_stop:
     // Here, we need to check that the final registers have the correct value.
     // stack: trap_info
+    // `%stack_length` overwrites the stack size stored in the current context, which may still be
+    // read if this segment ends in the midst of `%stack_length`. We restore it below.
+    %mload_context_metadata(@CTX_METADATA_STACK_SIZE)
+    SWAP1
+    // stack: trap_info, stack_size
     PUSH @FINAL_REGISTERS_ADDR
-    // stack: addr_registers, trap_info
-    PUSH 3 
-    // If the current `stack_len` is 3, then the stack was empty before the exception and there's no stack top.
+    // stack: addr_registers, trap_info, stack_size
+    PUSH 4
+    // If the current `stack_len` is 4, then the stack was empty before the exception and there's no stack top.
     %stack_length
     SUB
     // First, check the stack length.
-    // stack: stack_len-3 = stack_len_before_exc, addr_registers, trap_info
+    // stack: stack_len-4 = stack_len_before_exc, addr_registers, trap_info
     DUP2 %add_const(2)
     MLOAD_GENERAL
     // stack: stored_stack_length, stack_len_before_exc, addr_registers, trap_info
@@ -249,6 +254,8 @@ global exc_stop:
     // stack: stored_context
     GET_CONTEXT
     %assert_eq
+    // stack: stack_size
+    %mstore_context_metadata(@CTX_METADATA_STACK_SIZE)
     // stack: (empty)
     // The following two instructions are needed to not have failing constraints. 
     // `ISZERO` pops and pushes, which means that there is no need to read the next top of the stack after it. 
diff --git a/evm_arithmetization/src/cpu/kernel/asm/main.asm b/evm_arithmetization/src/cpu/kernel/asm/main.asm
index cb170ef..0695951 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/main.asm
@@ -1,10 +1,14 @@
 global init:
+    // `%stack_length` overwrites the stack size stored in the current context, which may still be
+    // read if the previous segment ended in the midst of `%stack_length`. We restore it below.
+    %mload_context_metadata(@CTX_METADATA_STACK_SIZE)
+    // stack: stack_size
     PUSH @SEGMENT_REGISTERS_STATES
-    // stack: addr_registers
+    // stack: addr_registers, stack_size
     // First, set the registers correctly and verify their values.
-    PUSH 2
+    PUSH 3
     %stack_length SUB
-    // stack: prev_stack_len, addr_registers
+    // stack: prev_stack_len, addr_registers, stack_size
     // First, check the stack length.
     DUP1
     DUP3 %add_const(2) 
@@ -56,7 +60,10 @@ global init:
     SWAP1 %add_const(5) MLOAD_GENERAL
     // stack: gas_used, is_kernel << 32 + program_counter
     %shl_const(192) ADD
-    // stack: kexit_info =  gas_used << 192 + is_kernel << 32 + program_counter
+    // stack: kexit_info =  gas_used << 192 + is_kernel << 32 + program_counter, stack_size
+    SWAP1
+    %mstore_context_metadata(@CTX_METADATA_STACK_SIZE)
+    // stack: kexit_info
     // Now, we set the PC, is_kernel and gas_used to the correct values and continue the execution.
     EXIT_KERNEL
 
diff --git a/evm_arithmetization/src/generation/mod.rs b/evm_arithmetization/src/generation/mod.rs
index 023e1f2..9b2f57b 100644
--- a/evm_arithmetization/src/generation/mod.rs
+++ b/evm_arithmetization/src/generation/mod.rs
@@ -46,10 +46,10 @@ use crate::witness::util::mem_write_log;
 
 /// Number of cycles to go after having reached the halting state. It is
 /// equal to the number of cycles in `exc_stop` + 1.
-pub const NUM_EXTRA_CYCLES_AFTER: usize = 82;
+pub const NUM_EXTRA_CYCLES_AFTER: usize = 92;
 /// Number of cycles to go before starting the execution: it is the number of
 /// cycles in `init`.
-pub const NUM_EXTRA_CYCLES_BEFORE: usize = 64;
+pub const NUM_EXTRA_CYCLES_BEFORE: usize = 74;
 /// Memory values used to initialize `MemBefore`.
 pub type MemBeforeValues = Vec<(MemoryAddress, U256)>;
 
-- 
2.43.0


From 1ae18125cb276075ff78cd8f0987f07b5a025b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 22/48] fix: keep the fee a failed transaction pays to a
 beneficiary that did not exist

---
 trace_decoder/src/core.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index cd2bcfa..23b353a 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -503,8 +503,9 @@ where
 
                 let do_writes = !just_access
                     && match born {
-                        // if txn failed, don't commit changes to trie
-                        true => receipt.status,
+                        // if txn failed, don't commit changes to trie,
+                        // except for the fees which the beneficiary is paid anyway
+                        true => receipt.status || addr == block.block_beneficiary,
                         false => true,
                     };
 
-- 
2.43.0


From 97441dc99e8a4c6b892514d062567727859f29d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 23/48] fix: a withdrawal of nothing must not create an account

---
 trace_decoder/src/core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index 23b353a..486098f 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -591,7 +591,10 @@ where
                 true => {
                     for (addr, amt) in &withdrawals {
                         state_mask.insert(<WorldT::SubtriePath>::from(*addr));
-                        world.update_balance(*addr, |it| *it += *amt)?;
+                        // a withdrawal of nothing does not create its account
+                        if !amt.is_zero() {
+                            world.update_balance(*addr, |it| *it += *amt)?;
+                        }
                     }
                     mem::take(&mut withdrawals)
                 }
-- 
2.43.0


From c4a655078f7ae9439a04cf09c5f8c8cc56f57666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 24/48] fix: a subset for a key ending within an extension must
 not panic

---
 mpt_trie/src/trie_subsets.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpt_trie/src/trie_subsets.rs b/mpt_trie/src/trie_subsets.rs
index 2cda010..5b777f0 100644
--- a/mpt_trie/src/trie_subsets.rs
+++ b/mpt_trie/src/trie_subsets.rs
@@ -327,6 +327,11 @@ fn mark_nodes_that_are_needed<N: PartialTrie>(
 
             let nibbles: &Nibbles = trie.info.get_nibbles_expected();
             if curr_nibbles.nibbles_are_identical_up_to_smallest_count(nibbles) {
+                // The key is exhausted within this node.
+                if curr_nibbles.count < nibbles.count {
+                    return Ok(());
+                }
+
                 curr_nibbles.pop_nibbles_front(nibbles.count);
                 return mark_nodes_that_are_needed(child, curr_nibbles);
             }
-- 
2.43.0


From 6e8b750040748490376608845b584d5e431aba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 25/48] fix: refuse a balance of more than 32 bytes in a
 witness

---
 trace_decoder/src/wire.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trace_decoder/src/wire.rs b/trace_decoder/src/wire.rs
index 3590430..a87ee7a 100644
--- a/trace_decoder/src/wire.rs
+++ b/trace_decoder/src/wire.rs
@@ -164,7 +164,10 @@ fn account_leaf(input: &mut &[u8]) -> PResult<Instruction> {
             true => Some(
                 trace(
                     "balance",
-                    cbor::<Vec<u8>>.map(|bytes| U256::from_big_endian(&bytes)),
+                    cbor::<Vec<u8>>.try_map(|bytes| match bytes.len() <= 32 {
+                        true => Ok(U256::from_big_endian(&bytes)),
+                        false => Err(Error("balance is too long")),
+                    }),
                 )
                 .parse_next(input)?,
             ),
-- 
2.43.0


From 3a352c5029df032def63363726940c72771fea6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 26/48] fix: fold shifts by any amount

---
 evm_arithmetization/src/cpu/kernel/optimizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/optimizer.rs b/evm_arithmetization/src/cpu/kernel/optimizer.rs
index 2fac05e..1520d9a 100644
--- a/evm_arithmetization/src/cpu/kernel/optimizer.rs
+++ b/evm_arithmetization/src/cpu/kernel/optimizer.rs
@@ -66,8 +66,8 @@ fn constant_propagation(code: &mut Vec<Item>) {
                 "DIV" => Some(x.checked_div(y).unwrap_or(U256::zero())),
                 "MOD" => Some(x.checked_rem(y).unwrap_or(U256::zero())),
                 "EXP" => Some(x.overflowing_pow(y).0),
-                "SHL" => Some(y << x),
-                "SHR" => Some(y >> x),
+                "SHL" => Some(if x < 256.into() { y << x } else { U256::zero() }),
+                "SHR" => Some(if x < 256.into() { y >> x } else { U256::zero() }),
                 "AND" => Some(x & y),
                 "OR" => Some(x | y),
                 "XOR" => Some(x ^ y),
-- 
2.43.0


From febf8a72464c485413e7dd5042a83c92fecb6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 27/48] fix: fold BYTE counting from the most significant byte

---
 evm_arithmetization/src/cpu/kernel/optimizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/cpu/kernel/optimizer.rs b/evm_arithmetization/src/cpu/kernel/optimizer.rs
index 1520d9a..63d269d 100644
--- a/evm_arithmetization/src/cpu/kernel/optimizer.rs
+++ b/evm_arithmetization/src/cpu/kernel/optimizer.rs
@@ -75,7 +75,8 @@ fn constant_propagation(code: &mut Vec<Item>) {
                 "GT" => Some(u256_from_bool(x > y)),
                 "EQ" => Some(u256_from_bool(x == y)),
                 "BYTE" => Some(if x < 32.into() {
-                    y.byte(x.as_usize()).into()
+                    // `BYTE` counts from the most significant byte, `U256::byte` from the least.
+                    y.byte(31 - x.as_usize()).into()
                 } else {
                     U256::zero()
                 }),
-- 
2.43.0


From 39ec9fcbfa7c2bb4f64bd4fc42ebd0874b3adeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 28/48] verif hooks: start of the trace decoder

---
 trace_decoder/src/core.rs | 24 ++++++++++++++++++++++++
 trace_decoder/src/lib.rs  |  5 +++++
 2 files changed, 29 insertions(+)

diff --git a/trace_decoder/src/core.rs b/trace_decoder/src/core.rs
index 486098f..4677852 100644
--- a/trace_decoder/src/core.rs
+++ b/trace_decoder/src/core.rs
@@ -839,3 +839,27 @@ impl<H: Hasher> FromIterator<Vec<u8>> for Hash2Code<H> {
         this
     }
 }
+
+/// What checks outside this crate need of it.
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    use super::*;
+
+    /// The codes decoded, by their hashes.
+    pub type Codes = Box<dyn FnMut(H256) -> Option<Vec<u8>>>;
+
+    #[allow(clippy::type_complexity)]
+    pub fn start(
+        pre_images: BlockTraceTriePreImages,
+        wire_disposition: WireDisposition,
+    ) -> anyhow::Result<Either<(Type1World, Codes), (Type2World, Codes)>> {
+        Ok(match super::start(pre_images, wire_disposition)? {
+            Either::Left((world, mut code)) => {
+                Either::Left((world, Box::new(move |hash| code.get(hash))))
+            }
+            Either::Right((world, mut code)) => {
+                Either::Right((world, Box::new(move |hash| code.get(hash))))
+            }
+        })
+    }
+}
diff --git a/trace_decoder/src/lib.rs b/trace_decoder/src/lib.rs
index 4bd68bc..6eee915 100644
--- a/trace_decoder/src/lib.rs
+++ b/trace_decoder/src/lib.rs
@@ -72,6 +72,11 @@ pub use core::{entrypoint, WireDisposition};
 
 mod core;
 
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::core::verif_hooks::*;
+}
+
 /// Implementation of the observer for the trace decoder.
 pub mod observer;
 /// Like `#[serde(with = "hex")`, but tolerates and emits leading `0x` prefixes
-- 
2.43.0


From 460fa2f0c4cfca3148021a6680dcbe44e2242ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 29/48] fix: the half of the BLS12-381 base field's modulus was
 one too large

---
 evm_arithmetization/src/extension_tower.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evm_arithmetization/src/extension_tower.rs b/evm_arithmetization/src/extension_tower.rs
index 3638c8c..4d92f4c 100644
--- a/evm_arithmetization/src/extension_tower.rs
+++ b/evm_arithmetization/src/extension_tower.rs
@@ -271,7 +271,7 @@ impl BLS381 {
         // (p - 1) / 2.
 
         const MODULUS_MINUS_ONE_DIV_TWO: U512 = U512([
-            0xdcff7fffffffd556,
+            0xdcff7fffffffd555,
             0x0f55ffff58a9ffff,
             0xb39869507b587b12,
             0xb23ba5c279c2895f,
-- 
2.43.0


From cb6814086503ebea6aa736efac3a365b5a37e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 30/48] fix: refuse a compressed point whose coordinate is the
 modulus

---
 evm_arithmetization/src/curve_pairings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/curve_pairings.rs b/evm_arithmetization/src/curve_pairings.rs
index 8152bdd..84520b1 100644
--- a/evm_arithmetization/src/curve_pairings.rs
+++ b/evm_arithmetization/src/curve_pairings.rs
@@ -698,8 +698,8 @@ pub mod bls381 {
             }
         };
 
-        if x.val > BLS_BASE {
-            return Err(anyhow!("X coordinate is larger than modulus."));
+        if x.val >= BLS_BASE {
+            return Err(anyhow!("X coordinate is not smaller than modulus."));
         }
 
         if infinity_flag_set {
-- 
2.43.0


From e81a3053c12ddf6964f060fc8be98a8e5b3ef7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 31/48] fix: draw the challenges after observing the registers

---
 evm_arithmetization/src/get_challenges.rs | 36 +++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/evm_arithmetization/src/get_challenges.rs b/evm_arithmetization/src/get_challenges.rs
index 4bdffd5..d1f6970 100644
--- a/evm_arithmetization/src/get_challenges.rs
+++ b/evm_arithmetization/src/get_challenges.rs
@@ -199,6 +199,38 @@ fn observe_block_hashes_target<
     challenger.observe_elements(&block_hashes.cur_hash);
 }
 
+fn observe_registers<F: RichField + Extendable<D>, C: GenericConfig<D, F = F>, const D: usize>(
+    challenger: &mut Challenger<F, C::Hasher>,
+    registers: &RegistersData,
+) -> Result<(), ProgramError> {
+    challenger.observe_element(u256_to_u32(registers.program_counter)?);
+    challenger.observe_element(u256_to_u32(registers.is_kernel)?);
+    challenger.observe_element(u256_to_u32(registers.stack_len)?);
+    challenger.observe_elements(&u256_limbs(registers.stack_top));
+    challenger.observe_element(u256_to_u32(registers.context)?);
+    challenger.observe_element(u256_to_u32(registers.gas_used)?);
+
+    Ok(())
+}
+
+fn observe_registers_target<
+    F: RichField + Extendable<D>,
+    C: GenericConfig<D, F = F>,
+    const D: usize,
+>(
+    challenger: &mut RecursiveChallenger<F, C::Hasher, D>,
+    registers: &RegistersDataTarget,
+) where
+    C::Hasher: AlgebraicHasher<F>,
+{
+    challenger.observe_element(registers.program_counter);
+    challenger.observe_element(registers.is_kernel);
+    challenger.observe_element(registers.stack_len);
+    challenger.observe_elements(&registers.stack_top);
+    challenger.observe_element(registers.context);
+    challenger.observe_element(registers.gas_used);
+}
+
 pub(crate) fn observe_public_values<
     F: RichField + Extendable<D>,
     C: GenericConfig<D, F = F>,
@@ -212,6 +244,8 @@ pub(crate) fn observe_public_values<
     observe_block_metadata::<F, C, D>(challenger, &public_values.block_metadata)?;
     observe_block_hashes::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data::<F, C, D>(challenger, &public_values.extra_block_data)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_before)?;
+    observe_registers::<F, C, D>(challenger, &public_values.registers_after)?;
 
     #[cfg(feature = "cdk_erigon")]
     {
@@ -241,6 +275,8 @@ pub(crate) fn observe_public_values_target<
     observe_block_metadata_target::<F, C, D>(challenger, &public_values.block_metadata);
     observe_block_hashes_target::<F, C, D>(challenger, &public_values.block_hashes);
     observe_extra_block_data_target::<F, C, D>(challenger, &public_values.extra_block_data);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_before);
+    observe_registers_target::<F, C, D>(challenger, &public_values.registers_after);
     #[cfg(feature = "cdk_erigon")]
     observe_burn_addr_target::<F, C, D>(challenger, public_values.burn_addr.clone());
 }
-- 
2.43.0


From e67525f5e84af5cb1f7f43413d8bfecc7cd6360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 32/48] fix: forget the slots of a destroyed account

When the kernel removes the storage of an account which was created and
destroyed in one transaction, the prover's map of the list's nodes kept
them, so that a later transaction of the same batch which touches the slots
was given a hint at a deleted node and could not be proven.
---
 evm_arithmetization/src/generation/prover_input.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evm_arithmetization/src/generation/prover_input.rs b/evm_arithmetization/src/generation/prover_input.rs
index e7be97c..79c3678 100644
--- a/evm_arithmetization/src/generation/prover_input.rs
+++ b/evm_arithmetization/src/generation/prover_input.rs
@@ -617,6 +617,9 @@ impl<F: RichField> GenerationState<F> {
             .next_back()
             .unwrap_or((&DUMMYHEAD, &(Segment::StorageLinkedList as usize)));
 
+        // The kernel removes all the slots of the account from the list.
+        self.state_ptrs.storage.retain(|&(a, _), _| a != addr);
+
         Ok(U256::from(
             (pred_ptr - Segment::StorageLinkedList as usize) / STORAGE_LINKED_LIST_NODE_SIZE,
         ))
-- 
2.43.0


From 28cd250ff1e952244c25bbedf6ad965f830d7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 33/48] verif hooks: rows of the memory table judged alone

---
 evm_arithmetization/src/verif_hooks/tables.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evm_arithmetization/src/verif_hooks/tables.rs b/evm_arithmetization/src/verif_hooks/tables.rs
index b612662..7bcf389 100644
--- a/evm_arithmetization/src/verif_hooks/tables.rs
+++ b/evm_arithmetization/src/verif_hooks/tables.rs
@@ -81,6 +81,22 @@ impl Starks {
         out.iter().all(|x| x.is_zero())
     }
 
+    /// Whether those constraints of the memory table hold on a row which do
+    /// not concern its place or its successor.
+    pub fn memory_holds_alone(&self, row: &[F]) -> bool {
+        let mut c = ConstraintConsumer::<F>::new(
+            vec![F::from_canonical_u64(0x9e37_79b9_7f4a_7c15)],
+            F::ZERO,
+            F::ZERO,
+            F::ZERO,
+        );
+        let vars = StarkEvaluationFrame::<F, F>::from_values(row, row, &[]);
+        self.0
+            .memory_stark
+            .eval_packed_generic::<F, F, 1>(&vars, &mut c);
+        c.accumulators().iter().all(|x| x.is_zero())
+    }
+
     /// The lookups within each table, as debug text.
     pub fn lookups(&self) -> Vec<String> {
         let s = &self.0;
-- 
2.43.0


From 8b3b64e699dc776132c28e7267da3ac9e3d207bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 34/48] fix: hand exactly the memory's final content on to the
 next segment

The constraints of the memory table let a prover drop any value between two
segments (by a dummy read after the last access to its address, in a
preinitialized segment, before one, in the last row, or by declaring a
context stale which was not pruned), and hand on an earlier value of a cell
besides the last one.
---
 evm_arithmetization/src/memory/columns.rs     |  10 +-
 .../src/memory/memory_stark.rs                | 102 +++++++++++++++---
 2 files changed, 98 insertions(+), 14 deletions(-)

diff --git a/evm_arithmetization/src/memory/columns.rs b/evm_arithmetization/src/memory/columns.rs
index 10fb75b..0da8fb2 100644
--- a/evm_arithmetization/src/memory/columns.rs
+++ b/evm_arithmetization/src/memory/columns.rs
@@ -57,6 +57,10 @@ pub(crate) struct MemoryColumnsView<T> {
     /// Segment::StorageLinkedList)`.
     pub preinitialized_segments_aux: T,
 
+    /// Contains the inverse of `preinitialized_segments`, or 0 if it is 0. Used
+    /// to check that the next row's segment is not preinitialized.
+    pub preinitialized_segments_inv: T,
+
     /// Contains `row_index` + 1 if and only if context `row_index` is stale,
     /// and zero if not.
     pub stale_contexts: T,
@@ -72,8 +76,12 @@ pub(crate) struct MemoryColumnsView<T> {
     /// `addr_context` + 1 is in `state_contexts`.
     pub is_stale: T,
 
+    /// Flag indicating whether an actual memory operation was made at this
+    /// address, in this row or in an earlier one.
+    pub is_touched: T,
+
     /// Flag indicating that a value can potentially be propagated.
-    /// Contains `filter * address_changed * is_not_stale`.
+    /// Contains `is_touched * address_changed * is_not_stale`.
     pub maybe_in_mem_after: T,
 
     /// Filter for the `MemAfter` CTL. Is equal to `MAYBE_IN_MEM_AFTER` if
diff --git a/evm_arithmetization/src/memory/memory_stark.rs b/evm_arithmetization/src/memory/memory_stark.rs
index 357e720..d83e043 100644
--- a/evm_arithmetization/src/memory/memory_stark.rs
+++ b/evm_arithmetization/src/memory/memory_stark.rs
@@ -193,11 +193,27 @@ pub(crate) fn generate_first_change_flags_and_rc<F: RichField>(
             - F::from_canonical_usize(Segment::Code.unscale()))
             * (next_segment - F::from_canonical_usize(Segment::TrieData.unscale()))
             * row.preinitialized_segments_aux;
+        row.preinitialized_segments_inv = row
+            .preinitialized_segments
+            .try_inverse()
+            .unwrap_or_default();
 
         let address_changed =
             row.context_first_change + row.segment_first_change + row.virtual_first_change;
         row.initialize_aux = row.preinitialized_segments * address_changed * next_is_read;
     }
+
+    for idx in 0..num_ops {
+        let is_touched = trace_rows[idx].filter.is_one()
+            || idx > 0 && {
+                let prev = &trace_rows[idx - 1];
+                prev.is_touched.is_one()
+                    && prev.context_first_change.is_zero()
+                    && prev.segment_first_change.is_zero()
+                    && prev.virtual_first_change.is_zero()
+            };
+        trace_rows[idx].is_touched = F::from_bool(is_touched);
+    }
 }
 
 impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
@@ -258,12 +274,12 @@ impl<F: RichField + Extendable<D>, const D: usize> MemoryStark<F, D> {
             if addr_ctx + F::ONE == trace_col_vecs[MEMORY_COL_MAP.stale_contexts][addr_ctx_usize] {
                 trace_col_vecs[MEMORY_COL_MAP.is_stale][i] = F::ONE;
                 trace_col_vecs[MEMORY_COL_MAP.stale_context_frequencies][addr_ctx_usize] += F::ONE;
-            } else if trace_col_vecs[MEMORY_COL_MAP.filter][i].is_one()
+            } else if trace_col_vecs[MEMORY_COL_MAP.is_touched][i].is_one()
                 && (trace_col_vecs[MEMORY_COL_MAP.context_first_change][i].is_one()
                     || trace_col_vecs[MEMORY_COL_MAP.segment_first_change][i].is_one()
                     || trace_col_vecs[MEMORY_COL_MAP.virtual_first_change][i].is_one())
             {
-                // `maybe_in_mem_after = filter * address_changed * (1 - is_stale)`
+                // `maybe_in_mem_after = is_touched * address_changed * (1 - is_stale)`
                 trace_col_vecs[MEMORY_COL_MAP.maybe_in_mem_after][i] = F::ONE;
 
                 let addr_segment = trace_col_vecs[MEMORY_COL_MAP.addr_segment][i];
@@ -498,6 +514,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
+        let is_touched = lv.is_touched;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
 
         let next_timestamp = nv.timestamp;
         let next_is_read = nv.is_read;
@@ -595,21 +615,40 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(initialize_aux * next_values_limbs[i]);
         }
 
+        // A context can only be stale if it was pruned.
+        yield_constr.constraint(is_pruned * (is_pruned - P::ONES));
+        yield_constr.constraint(stale_contexts * (is_pruned - P::ONES));
+
+        // Validate `is_touched`.
+        yield_constr.constraint_first_row(is_touched - filter);
+        yield_constr.constraint_transition(
+            nv.is_touched - nv.filter - (P::ONES - nv.filter) * address_unchanged * is_touched,
+        );
+        // The last row must not be the last one of an address which may have to be in
+        // `MemAfterStark`, since it has no next row to tell it.
+        yield_constr.constraint_last_row(is_touched);
+        yield_constr.constraint_last_row(maybe_in_mem_after);
+
         // Validate `maybe_in_mem_after`.
         yield_constr.constraint_transition(
-            maybe_in_mem_after + filter * not_address_unchanged * (is_stale - P::ONES),
+            maybe_in_mem_after + is_touched * not_address_unchanged * (is_stale - P::ONES),
         );
 
-        // `mem_after_filter` must be binary.
+        // `mem_after_filter` must be binary, and 0 if `maybe_in_mem_after` is.
         yield_constr.constraint(mem_after_filter * (mem_after_filter - P::ONES));
+        yield_constr.constraint(mem_after_filter * (maybe_in_mem_after - P::ONES));
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
+        // (The first row is never concerned by the former: it holds the first byte of
+        // the kernel, or comes before it.)
+        yield_constr.constraint_transition(
+            (nv.mem_after_filter - nv.maybe_in_mem_after)
+                * (preinitialized_segments * preinitialized_segments_inv - P::ONES),
+        );
         for i in 0..VALUE_LIMBS {
-            yield_constr.constraint(
-                (mem_after_filter - maybe_in_mem_after) * preinitialized_segments * value_limbs[i],
-            );
+            yield_constr.constraint((mem_after_filter - maybe_in_mem_after) * value_limbs[i]);
         }
 
         // Validate timestamp_inv. Since it's used as a CTL filter, its value must be
@@ -650,6 +689,10 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
         let initialize_aux = lv.initialize_aux;
         let preinitialized_segments = lv.preinitialized_segments;
         let preinitialized_segments_aux = lv.preinitialized_segments_aux;
+        let preinitialized_segments_inv = lv.preinitialized_segments_inv;
+        let is_touched = lv.is_touched;
+        let stale_contexts = lv.stale_contexts;
+        let is_pruned = lv.is_pruned;
 
         let next_addr_context = nv.addr_context;
         let next_addr_segment = nv.addr_segment;
@@ -810,28 +853,61 @@ impl<F: RichField + Extendable<D>, const D: usize> Stark<F, D> for MemoryStark<F
             yield_constr.constraint_transition(builder, zero_init_constraint);
         }
 
+        // A context can only be stale if it was pruned.
+        {
+            let constr = builder.mul_sub_extension(is_pruned, is_pruned, is_pruned);
+            yield_constr.constraint(builder, constr);
+            let constr = builder.mul_sub_extension(stale_contexts, is_pruned, stale_contexts);
+            yield_constr.constraint(builder, constr);
+        }
+
+        // Validate `is_touched`.
+        {
+            let constr = builder.sub_extension(is_touched, filter);
+            yield_constr.constraint_first_row(builder, constr);
+            let next_is_dummy = builder.sub_extension(one, nv.filter);
+            let still_touched = builder.mul_extension(address_unchanged, is_touched);
+            let rhs = builder.mul_add_extension(next_is_dummy, still_touched, nv.filter);
+            let constr = builder.sub_extension(nv.is_touched, rhs);
+            yield_constr.constraint_transition(builder, constr);
+        }
+        // The last row must not be the last one of an address which may have to be in
+        // `MemAfterStark`, since it has no next row to tell it.
+        yield_constr.constraint_last_row(builder, is_touched);
+        yield_constr.constraint_last_row(builder, maybe_in_mem_after);
+
         // Validate `maybe_in_mem_after`.
         {
-            let rhs = builder.mul_extension(filter, not_address_unchanged);
+            let rhs = builder.mul_extension(is_touched, not_address_unchanged);
             let rhs = builder.mul_sub_extension(rhs, is_stale, rhs);
             let constr = builder.add_extension(maybe_in_mem_after, rhs);
             yield_constr.constraint_transition(builder, constr);
         }
 
-        // `mem_after_filter` must be binary.
+        // `mem_after_filter` must be binary, and 0 if `maybe_in_mem_after` is.
         {
             let constr =
                 builder.mul_sub_extension(mem_after_filter, mem_after_filter, mem_after_filter);
             yield_constr.constraint(builder, constr);
+            let constr =
+                builder.mul_sub_extension(mem_after_filter, maybe_in_mem_after, mem_after_filter);
+            yield_constr.constraint(builder, constr);
         }
 
         // `mem_after_filter` is equal to `maybe_in_mem_after` if:
-        // - segment is not preinitialized OR
+        // - segment is preinitialized OR
         // - value is not zero.
+        // (The first row is never concerned by the former: it holds the first byte of
+        // the kernel, or comes before it.)
+        {
+            let diff = builder.sub_extension(nv.mem_after_filter, nv.maybe_in_mem_after);
+            let prod = builder.mul_extension(preinitialized_segments, preinitialized_segments_inv);
+            let constr = builder.mul_sub_extension(diff, prod, diff);
+            yield_constr.constraint_transition(builder, constr);
+        }
         let mem_after_filter_diff = builder.sub_extension(mem_after_filter, maybe_in_mem_after);
         for i in 0..VALUE_LIMBS {
-            let prod = builder.mul_extension(preinitialized_segments, value_limbs[i]);
-            let constr = builder.mul_extension(mem_after_filter_diff, prod);
+            let constr = builder.mul_extension(mem_after_filter_diff, value_limbs[i]);
             yield_constr.constraint(builder, constr);
         }
 
-- 
2.43.0


From 3a3e73e6d9cff2388ce4e526930158eac7dbe6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 35/48] fix: refuse an access list pointer below the list

---
 .../src/cpu/kernel/asm/core/access_lists.asm         | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
index 84cc407..920138f 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/access_lists.asm
@@ -72,6 +72,7 @@ global init_access_lists:
 
 // Multiply the value at the top of the stack, denoted by ptr/2, by 2
 // and abort if ptr/2 >= mem[@GLOBAL_METADATA_ACCESSED_ADDRESSES_LEN]/2
+// or if ptr lies below @SEGMENT_ACCESSED_ADDRESSES.
 // In this way 2*ptr/2 must be pointing to the beginning of a node.
 %macro get_valid_addr_ptr
     // stack: ptr/2
@@ -86,6 +87,11 @@ global init_access_lists:
     %assert_gt
     %mul_const(2)
     // stack: ptr
+    // Check that the pointer is not below the segment.
+    PUSH @SEGMENT_ACCESSED_ADDRESSES
+    DUP2
+    %assert_ge
+    // stack: ptr
 %endmacro
 
 
@@ -218,6 +224,7 @@ global remove_accessed_addresses:
 
 // Multiply the ptr at the top of the stack, denoted by ptr/4, by 4
 // and abort if ptr/4 >= @GLOBAL_METADATA_ACCESSED_STORAGE_KEYS_LEN/4
+// or if ptr lies below @SEGMENT_ACCESSED_STORAGE_KEYS.
 // In this way 4*ptr/4 be pointing to the beginning of a node.
 %macro get_valid_storage_ptr
     // stack: ptr/4
@@ -230,6 +237,11 @@ global remove_accessed_addresses:
     %assert_gt
     %mul_const(4)
     // stack: ptr
+    // Check that the pointer is not below the segment.
+    PUSH @SEGMENT_ACCESSED_STORAGE_KEYS
+    DUP2
+    %assert_ge
+    // stack: ptr
 %endmacro
 
 /// Inserts the storage key into the access list if it is not already present.
-- 
2.43.0


From 62cac0ad4fccb9ca43660fb464c0644a00b6f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 36/48] fix: show that an account or a slot is missing from the
 linked list

---
 .../asm/mpt/linked_list/linked_list.asm       | 47 ++++++++++++++++++-
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 650d69d..6ba9cf5 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -301,7 +301,21 @@ account_found:
 
 account_not_found:
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    %stack (pred_addr_key, pred_ptr, addr_key, retdest) -> (retdest, 0)
+    POP
+    %next_account
+    // stack: next_ptr, addr_key, retdest
+    // Check that the predecessor is not a deleted node, whose next_ptr is @U256_MAX
+    DUP1
+    %increment
+    %assert_nonzero
+    MLOAD_GENERAL
+    // stack: next_addr_key, addr_key, retdest
+    // Here, (addr_key > pred_addr_key) || (pred_ptr == @SEGMENT_ACCOUNTS_LINKED_LIST).
+    // The account is missing only if (addr_key < next_addr_key).
+    %assert_gt
+    // stack: retdest
+    PUSH 0
+    SWAP1
     JUMP
 
 %macro remove_account_from_linked_list
@@ -831,7 +845,36 @@ global search_slot:
     PANIC
 slot_not_found:    
     // stack: pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest
-    %stack (pred_addr_or_pred_key, pred_ptr, addr_key, key, value, retdest)
+    POP
+    %next_slot
+    // stack: next_ptr, addr_key, key, value, retdest
+    // Check that the predecessor is not a deleted node, whose next_ptr is @U256_MAX
+    DUP1
+    %increment
+    %assert_nonzero
+    DUP1
+    MLOAD_GENERAL
+    // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
+    // The slot is missing only if (addr_key < next_addr_key), or if both
+    // are equal and (key < next_key).
+    DUP1
+    DUP4
+    LT
+    %jumpi(slot_missing)
+    // stack: next_addr_key, next_ptr, addr_key, key, value, retdest
+    DUP3
+    %assert_eq
+    // stack: next_ptr, addr_key, key, value, retdest
+    DUP1
+    %increment
+    MLOAD_GENERAL
+    // stack: next_key, next_ptr, addr_key, key, value, retdest
+    DUP1 // This is added just to have the correct stack in slot_missing
+    DUP5
+    %assert_lt
+slot_missing:
+    // stack: next_addr_or_next_key, next_ptr, addr_key, key, value, retdest
+    %stack (next_addr_or_next_key, next_ptr, addr_key, key, value, retdest)
         -> (retdest, value)
     JUMP
 
-- 
2.43.0


From 9b4e71905325bc0879ae3cd2f232ce9023677f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:28 +0000
Subject: [PATCH 37/48] fix: remove every slot of a deleted account whatever
 the hint

---
 .../asm/mpt/linked_list/linked_list.asm       | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 6ba9cf5..5c34fad 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -948,10 +948,13 @@ global remove_all_account_slots:
     // pred_ptr/5, retdest
     %get_valid_slot_ptr
     // stack: pred_ptr, addr_key, retdest
-    // First, check that the previous address is not `addr`
+    // First, check that the previous address is smaller than `addr`, or the head of the list.
     DUP1 MLOAD_GENERAL
     // stack: pred_addr_key, pred_ptr, addr_key, retdest
-    DUP3 EQ %jumpi(panic)
+    DUP3 GT
+    DUP2 %eq_const(@SEGMENT_STORAGE_LINKED_LIST)
+    ADD // OR
+    %assert_nonzero
     // stack: pred_ptr, addr_key, retdest
     DUP1
 
@@ -960,13 +963,14 @@ remove_all_slots_loop:
     // stack: pred_ptr, pred_ptr, addr_key, retdest
     %add_const(@STORAGE_NEXT_NODE_PTR) DUP1 MLOAD_GENERAL
     // stack: cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
-    DUP1 %eq_const(@U256_MAX) %jumpi(remove_all_slots_end)
+    // Check that this is not a deleted node, whose next_ptr is @U256_MAX
+    DUP1 %increment %assert_nonzero
     DUP1 %add_const(@STORAGE_NEXT_NODE_PTR) MLOAD_GENERAL 
     // stack: next_ptr, cur_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     SWAP1 DUP1
     // stack: cur_ptr, cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     MLOAD_GENERAL
-    DUP6 EQ ISZERO %jumpi(remove_all_slots_pop_and_end)
+    DUP6 EQ ISZERO %jumpi(remove_all_slots_end)
     
     // Remove slot: update the value in cur_ptr_ptr, and set cur_ptr+4 to @U256_MAX.
     // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
@@ -980,9 +984,12 @@ remove_all_slots_loop:
     DUP1
     %jump(remove_all_slots_loop)
 
-remove_all_slots_pop_and_end:
-    POP
 remove_all_slots_end:
+    // stack: cur_ptr, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    MLOAD_GENERAL
+    // stack: cur_addr_key, next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
+    // No slot of `addr` can be further in the list.
+    DUP5 %assert_lt
     // stack: next_ptr, cur_ptr_ptr, pred_ptr, addr_key, retdest
     %pop4 JUMP
 
-- 
2.43.0


From 3675f242c7ff131fdd5a9b6b441ae128cedfe0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 38/48] fix: show that a number has no square root

---
 .../cpu/kernel/asm/curve/secp256k1/lift_x.asm | 45 +++++++++----------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm b/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
index 94e9234..cecdf7d 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/curve/secp256k1/lift_x.asm
@@ -11,32 +11,28 @@
     DUP1
     // stack: x^3+7, x^3+7, parity
     %sqrt_secp_base_unsafe
-    // stack: y, x^3+7, x, parity
-    SWAP1
-    // stack: x^3+7, y, parity
-    DUP2
-    // stack: y, x^3+7, y, parity
-    %squaremodn_secp_base
-    // stack: y^2, x^3+7, y, parity
-    EQ
-    // stack: sqrtOk, y, parity
-    SWAP2
-    // stack: parity, y, sqrtOk
-    PUSH 2
-    // stack: 2, parity, y, sqrtOk
-    DUP3
-    // stack: y, 2, parity, y, sqrtOk
-    MOD
-    // stack: y % 2, parity, y, sqrtOk
-    EQ
-    // stack: correctParity, y, sqrtOk
-    DUP2
-    // stack: y, correctParity, y, sqrtOk
+    // stack: y, x^3+7, parity
     %secp_base
+    // stack: N, y, x^3+7, parity
+    // Check that y is reduced, so that its parity is well defined.
+    DUP1 DUP3 %assert_lt
+    // stack: N, y, x^3+7, parity
+    DUP1 DUP3 DUP1 MULMOD
+    // stack: y^2, N, y, x^3+7, parity
+    DUP2 DUP5 DUP3 ADDMOD ISZERO
+    // stack: y^2 == -(x^3+7), y^2, N, y, x^3+7, parity
+    SWAP1 DUP5 EQ
+    // stack: sqrtOk, y^2 == -(x^3+7), N, y, x^3+7, parity
+    // Since -1 is not a square, y is a root of either x^3+7 or -(x^3+7). A root of
+    // the latter shows that there is none of the former.
+    SWAP1 DUP2 ADD %assert_nonzero
+    // stack: sqrtOk, N, y, x^3+7, parity
+    %stack (sqrtOk, n, y, cube, parity) -> (y, 2, parity, n, y, y, sqrtOk)
+    MOD EQ
+    // stack: correctParity, N, y, y, sqrtOk
+    SWAP2 SWAP1
     // stack: N, y, correctParity, y, sqrtOk
-    SUB
-    // stack: N - y, correctParity, y, sqrtOk
-    SWAP1
+    SUB SWAP1
     // stack: correctParity, N - y, y, sqrtOk
     %select_bool
     // stack: goody, sqrtOk
@@ -62,6 +58,7 @@
 
 // Non-deterministically provide the square root modulo N.
 // Note: The square root is not checked and the macro doesn't panic if `x` is not a square.
+// In that case the prover provides a square root of `-x`.
 %macro sqrt_secp_base_unsafe
     // stack: x
     PROVER_INPUT(ff::secp256k1_base::sqrt)
-- 
2.43.0


From 00b976fb668b0fb602951ffd44e8bad5cfbd4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 39/48] fix: check every limb of a modular product

---
 .../src/cpu/kernel/asm/bignum/modmul.asm      | 66 +++++++++++++------
 .../src/cpu/kernel/asm/bignum/mul.asm         |  3 +-
 2 files changed, 47 insertions(+), 22 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/bignum/modmul.asm b/evm_arithmetization/src/cpu/kernel/asm/bignum/modmul.asm
index 9735f61..ad5ab1b 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/bignum/modmul.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/bignum/modmul.asm
@@ -3,8 +3,9 @@
 
 // Stores a * b % m in output_loc, leaving a, b, and m unchanged.
 // a, b, and m must have the same length.
-// output_loc must have size length; scratch_2 must have size 2*length.
+// output_loc must have size length; scratch_1 must have size 2*length.
 // Both scratch_2 and scratch_3 have size 2*length and be initialized with zeroes.
+// Also, scratch_2 and scratch_3 must be CONSECUTIVE in memory.
 
 // The prover provides x := (a * b) % m, which is the output of this function.
 // We first check that x < m.
@@ -29,6 +30,9 @@ modmul_remainder_loop:
     // stack: i, base_addr, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
     PROVER_INPUT(bignum_modmul)
     // stack: PI, i, base_addr, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
+    // A limb must have no more than 128 bits.
+    DUP1 %shr_const(128) %assert_zero
+    // stack: PI, i, base_addr, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
     DUP8
     DUP3
     ADD
@@ -82,6 +86,9 @@ modmul_quotient_loop:
     // stack: i, base_addr, 2*len, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
     PROVER_INPUT(bignum_modmul)
     // stack: PI, i, base_addr, 2*len, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
+    // A limb must have no more than 128 bits.
+    DUP1 %shr_const(128) %assert_zero
+    // stack: PI, i, base_addr, 2*len, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
     DUP10
     DUP3
     ADD
@@ -102,44 +109,61 @@ modmul_quotient_loop:
     // stack: len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
 
     // STEP 4:
-    // We calculate x + k * m.
+    // We calculate x + k * m, in scratch_2.
+
+    // Copy x to scratch_2.
+    DUP1 DUP6 DUP9
+    // stack: s2, out_loc, len, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
+    %memcpy_current_general
 
-    // STEP 4.1:
-    // Multiply k with m and store k * m in scratch_2.
+    // If the high half of k is zero, only its first len limbs need be multiplied.
     PUSH modmul_return_2
-    %stack (return, len, a, b, m, out, s1, s2) -> (len, s1, m, s2, return, len, a, b, out, s2)
-    // stack: len, s1, m_loc, s2, modmul_return_2, len, a_loc, b_loc, out_loc, s2, s3, retdest
-    %jump(mul_bignum)
+    DUP2 DUP8 ADD
+    DUP3
+    // stack: len, s1 + len, modmul_return_2, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
+    %jump(iszero_bignum)
 modmul_return_2:
-    // stack: len, a_loc, b_loc, out_loc, s2, s3, retdest
-
-    // STEP 4.2:
-    // Add x into k * m (in scratch_2).
-    PUSH modmul_return_3
-    %stack (return, len, a, b, out, s2) -> (len, s2, out, return, len, a, b, s2)
-    // stack: len, s2, out_loc, modmul_return_3, len, a_loc, b_loc, s2, s3, retdest
-    %jump(add_bignum)
+    // stack: k_hi==0, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
+    PUSH 2 SUB DUP2 MUL
+    // stack: n, len, a_loc, b_loc, m_loc, out_loc, s1, s2, s3, retdest
+
+    // Add k * m to scratch_2. Since scratch_3 follows scratch_2, what does not fit 2 * len limbs goes there.
+    %stack (n, len, a, b, m, out, s1, s2) -> (n, len, m, s1, s2, modmul_return_3, len, a, b, s2)
+    %build_current_general_address_no_offset
+    SWAP1
+    // stack: n, base_addr, len, m_loc, s1, s2, modmul_return_3, len, a_loc, b_loc, s2, s3, retdest
+    %jump(mul_loop)
 modmul_return_3:
-    // stack: carry, len, a_loc, b_loc, s2, s3, retdest
-    POP
+    // stack: len, a_loc, b_loc, s2, s3, retdest
+
+    // Check that x + k * m fits 2 * len limbs.
+    PUSH modmul_return_4
+    DUP6
+    DUP3
+    // stack: len, s3, modmul_return_4, len, a_loc, b_loc, s2, s3, retdest
+    %jump(iszero_bignum)
+modmul_return_4:
+    // stack: fits, len, a_loc, b_loc, s2, s3, retdest
+    %assert_nonzero
     // stack: len, a_loc, b_loc, s2, s3, retdest
 
     // STEP 5:
     // We calculate a * b.
 
     // Multiply a with b and store a * b in scratch_3.
-    PUSH modmul_return_4
+    PUSH modmul_return_5
     %stack (return, len, a, b, s2, s3) -> (len, a, b, s3, return, len, s2, s3)
-    // stack: len, a_loc, b_loc, s3, modmul_return_4, len, s2, s3, retdest
+    // stack: len, a_loc, b_loc, s3, modmul_return_5, len, s2, s3, retdest
     %jump(mul_bignum)
-modmul_return_4:
+modmul_return_5:
     // stack: len, s2, s3, retdest
 
     // STEP 6:
     // Check that x + k * m = a * b.
 
+    %mul_const(2)
     %build_current_general_address_no_offset
-    // stack: base_addr, n=len, i=s2, j=s3, retdest
+    // stack: base_addr, n=2*len, i=s2, j=s3, retdest
 modmul_check_loop:
     // stack: base_addr, n, i, j, retdest
     %stack (addr, l, i, j) -> (j, i, addr, addr, l, i, j)
diff --git a/evm_arithmetization/src/cpu/kernel/asm/bignum/mul.asm b/evm_arithmetization/src/cpu/kernel/asm/bignum/mul.asm
index b3269f7..1272a74 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/bignum/mul.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/bignum/mul.asm
@@ -17,7 +17,8 @@ global mul_bignum:
 
     DUP2
     // stack: n=len, base_addr, len, a_start_loc, bi=b_start_loc, output_cur=output_loc, retdest
-mul_loop:
+// Adds a * b[0:n] to output_cur, of which the limbs from len on must be zeroes.
+global mul_loop:
     // stack: n, base_addr, len, a_start_loc, bi, output_cur, retdest
     PUSH mul_addmul_return
     // stack: mul_addmul_return, n, base_addr, len, a_start_loc, bi, output_cur, retdest
-- 
2.43.0


From 547aba149b331a7f6ce659a315661b95a98536b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 40/48] fix: compute the blob base fee in the kernel

---
 .../src/cpu/kernel/asm/memory/metadata.asm    | 41 ++++++++++++++++++-
 .../cpu/kernel/asm/transactions/type_3.asm    |  2 +-
 .../src/cpu/kernel/constants/mod.rs           |  9 ++++
 3 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm b/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
index 5ac85f1..29770a3 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/memory/metadata.asm
@@ -317,10 +317,49 @@ global sys_basefee:
         // stack: kexit_info
         %charge_gas_const(@GAS_BASE)
         // stack: kexit_info
-        PROVER_INPUT(blobbasefee)
+        %blobbasefee
         // stack: blobbasefee, kexit_info
         SWAP1
         EXIT_KERNEL
+
+    %macro blobbasefee
+        PUSH %%after
+        %jump(blob_base_fee)
+    %%after:
+        // stack: blobbasefee
+    %endmacro
+
+    /// Computes the base fee per blob gas from the block's excess blob gas, i.e.
+    /// fake_exponential(MIN_BASE_FEE_PER_BLOB_GAS, excess_blob_gas, BLOB_BASE_FEE_UPDATE_FRACTION).
+    /// See EIP-4844: <https://eips.ethereum.org/EIPS/eip-4844#helpers>.
+    global blob_base_fee:
+        // stack: retdest
+        PUSH 0
+        PUSH @BLOB_BASE_FEE_UPDATE_FRACTION %mul_const(@MIN_BASE_FEE_PER_BLOB_GAS)
+        PUSH 1
+    blob_base_fee_loop:
+        // stack: i, accum, output, retdest
+        DUP2 ISZERO %jumpi(blob_base_fee_end)
+        SWAP2 DUP2 ADD
+        // stack: output' = output + accum, accum, i, retdest
+        SWAP1
+        %mload_global_metadata(@GLOBAL_METADATA_BLOCK_EXCESS_BLOB_GAS)
+        MUL
+        // stack: accum * excess_blob_gas, output', i, retdest
+        PUSH @BLOB_BASE_FEE_UPDATE_FRACTION DUP4 MUL
+        SWAP1 DIV
+        // stack: accum', output', i, retdest
+        %stack (accum, output, i) -> (i, accum, output)
+        %increment
+        // stack: i', accum', output', retdest
+        %jump(blob_base_fee_loop)
+    blob_base_fee_end:
+        // stack: i, accum=0, output, retdest
+        %pop2
+        PUSH @BLOB_BASE_FEE_UPDATE_FRACTION SWAP1 DIV
+        // stack: blobbasefee, retdest
+        SWAP1
+        JUMP
 }
 
 global sys_blockhash:
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index f84f95c..67aa814 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -105,7 +105,7 @@ store_origin:
     PUSH @GAS_PER_BLOB
     %get_blob_versioned_hashes_list_length
     MUL
-    PROVER_INPUT(blobbasefee)
+    %blobbasefee
     MUL
 %endmacro
 
diff --git a/evm_arithmetization/src/cpu/kernel/constants/mod.rs b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
index 171f5f6..cb0c4f8 100644
--- a/evm_arithmetization/src/cpu/kernel/constants/mod.rs
+++ b/evm_arithmetization/src/cpu/kernel/constants/mod.rs
@@ -42,6 +42,15 @@ pub(crate) fn evm_constants() -> HashMap<String, U256> {
         c.insert(name.into(), U256::from(value));
     }
 
+    c.insert(
+        "BLOB_BASE_FEE_UPDATE_FRACTION".into(),
+        cancun_constants::BLOB_BASE_FEE_UPDATE_FRACTION,
+    );
+    c.insert(
+        "MIN_BASE_FEE_PER_BLOB_GAS".into(),
+        cancun_constants::MIN_BASE_FEE_PER_BLOB_GAS,
+    );
+
     for (name, value) in REFUND_CONSTANTS {
         c.insert(name.into(), U256::from(value));
     }
-- 
2.43.0


From c1ad58c4dad21f6b3d6aed1bb2086b297644485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:57 +0000
Subject: [PATCH 41/48] fix: admit only a transaction whose sender can pay the
 most it may cost

---
 .../src/cpu/kernel/asm/core/process_txn.asm   | 48 ++++++++++++++++---
 .../cpu/kernel/asm/transactions/type_3.asm    |  9 ----
 2 files changed, 42 insertions(+), 15 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
index 28252d0..b007ec8 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/core/process_txn.asm
@@ -39,15 +39,42 @@ global process_normalized_txn:
     DUP1 %ext_code_empty %assert_nonzero(invalid_txn_1)
     // stack: sender, retdest
 
-    // Assert sender balance >= gas_limit * gas_price + value.
+    // Assert sender balance >= value + gas_limit * max_fee + blob_gas * max_fee_per_blob_gas.
+    // We subtract and divide in order not to overflow.
     %balance
     // stack: sender_balance, retdest
-    %mload_txn_field(@TXN_FIELD_COMPUTED_FEE_PER_GAS)
-    %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
-    MUL
     %mload_txn_field(@TXN_FIELD_VALUE)
-    ADD
-    %assert_le(invalid_txn)
+    DUP2 DUP2 %assert_le(invalid_txn_2) // Assert value <= sender_balance
+    SWAP1 SUB
+    // stack: rest = sender_balance - value, retdest
+    %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_GAS)
+    %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
+    // stack: gas_limit, max_fee, rest, retdest
+    DUP1 DUP4 DIV
+    DUP3 %assert_le(invalid_txn_3) // Assert max_fee <= rest / gas_limit
+    MUL SWAP1 SUB
+    // stack: rest = sender_balance - value - gas_limit * max_fee, retdest
+    #[cfg(feature = eth_mainnet)]
+    {
+        %get_blob_versioned_hashes_list_length
+        // stack: num_blobs, rest, retdest
+        DUP1 ISZERO %jumpi(no_blobs)
+        // EIP-4844: Blob transactions cannot create a contract
+        %is_contract_creation %assert_zero(invalid_txn_2)
+        %mload_txn_field(@TXN_FIELD_MAX_FEE_PER_BLOB_GAS)
+        // stack: max_fee_per_blob_gas, num_blobs, rest, retdest
+        DUP1 %blobbasefee %assert_le(invalid_txn_3) // Assert blob_base_fee <= max_fee_per_blob_gas
+        SWAP1 PUSH @GAS_PER_BLOB MUL
+        // stack: blob_gas, max_fee_per_blob_gas, rest, retdest
+        DUP3 DIV
+        // stack: rest / blob_gas, max_fee_per_blob_gas, rest, retdest
+        DUP2 %assert_le(invalid_txn_2) // Assert max_fee_per_blob_gas <= rest / blob_gas
+    no_blobs:
+        // stack: 0 or max_fee_per_blob_gas, rest, retdest
+        POP
+    }
+    // stack: rest, retdest
+    POP
     // stack: retdest
 
     // Assert chain ID matches block metadata
@@ -69,6 +96,15 @@ global buy_gas:
     %mload_txn_field(@TXN_FIELD_GAS_LIMIT)
     MUL
     // stack: gas_cost, retdest
+    #[cfg(feature = eth_mainnet)]
+    {
+        // EIP-4844: Also deduct blob_gas_fee from the sender and burn it
+        %get_blob_versioned_hashes_list_length ISZERO %jumpi(no_blob_gas_fee)
+        %compute_blob_gas_fee
+        ADD
+    no_blob_gas_fee:
+        // stack: gas_cost + blob_gas_fee, retdest
+    }
     %mload_txn_field(@TXN_FIELD_ORIGIN)
     // stack: sender_addr, gas_cost, retdest
     %deduct_eth
diff --git a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
index 67aa814..e86789b 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/transactions/type_3.asm
@@ -87,15 +87,6 @@ store_origin:
     %eq_const(0xffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff)
     %jumpi(panic)
 
-    // stack: address, retdest
-    // EIP-4844: Deduct blob_gas_fee from the sender and burn it
-    %compute_blob_gas_fee
-    DUP2
-    // stack: address, blob_gas_fee, address, retdest
-    %deduct_eth
-    // stack: deduct_eth_status, address, retdest
-    %jumpi(panic)
-
     // stack: address, retdest
     %mstore_txn_field(@TXN_FIELD_ORIGIN)
     // stack: retdest
-- 
2.43.0


From 1704ebad1cd6d9c7e8f53464ceab8ad5526a8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 42/48] fix: halt as soon as the memory of the kernel is given
 up

Execution ends by pruning context 0 and then jumping to halt. A segment
that ended between the two handed no kernel memory to the next one, which
then could never halt. Place halt right after the pruning.
---
 evm_arithmetization/src/cpu/kernel/aggregator.rs | 5 ++---
 evm_arithmetization/src/cpu/kernel/asm/halt.asm  | 2 --
 evm_arithmetization/src/cpu/kernel/asm/main.asm  | 6 ++++--
 3 files changed, 6 insertions(+), 7 deletions(-)
 delete mode 100644 evm_arithmetization/src/cpu/kernel/asm/halt.asm

diff --git a/evm_arithmetization/src/cpu/kernel/aggregator.rs b/evm_arithmetization/src/cpu/kernel/aggregator.rs
index 9ba3502..7513f35 100644
--- a/evm_arithmetization/src/cpu/kernel/aggregator.rs
+++ b/evm_arithmetization/src/cpu/kernel/aggregator.rs
@@ -10,9 +10,9 @@ use crate::cpu::kernel::constants::evm_constants;
 use crate::cpu::kernel::parser::parse;
 
 pub const NUMBER_KERNEL_FILES: usize = if cfg!(feature = "eth_mainnet") {
-    157
+    156
 } else if cfg!(feature = "cdk_erigon") || cfg!(feature = "polygon_pos") {
-    154
+    153
 } else {
     // unreachable
     0
@@ -96,7 +96,6 @@ pub static KERNEL_FILES: [&str; NUMBER_KERNEL_FILES] = [
     include_str!("asm/curve/secp256k1/precomputation.asm"),
     include_str!("asm/curve/wnaf.asm"),
     include_str!("asm/exp.asm"),
-    include_str!("asm/halt.asm"),
     include_str!("asm/hash/blake2/addresses.asm"),
     include_str!("asm/hash/blake2/blake2_f.asm"),
     // include_str!("asm/hash/blake2/blake2b.asm"),
diff --git a/evm_arithmetization/src/cpu/kernel/asm/halt.asm b/evm_arithmetization/src/cpu/kernel/asm/halt.asm
deleted file mode 100644
index 49561fd..0000000
--- a/evm_arithmetization/src/cpu/kernel/asm/halt.asm
+++ /dev/null
@@ -1,2 +0,0 @@
-global halt:
-    PANIC
diff --git a/evm_arithmetization/src/cpu/kernel/asm/main.asm b/evm_arithmetization/src/cpu/kernel/asm/main.asm
index 0695951..5d194ed 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/main.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/main.asm
@@ -259,8 +259,10 @@ global check_final_state_trie:
     // We have reached the end of the execution, so we set the pruning flag to 1 for context 0.
     PUSH 1
     SET_CONTEXT
-    
-    %jump(halt)
+    // `halt` follows at once: no later segment can run without the memory of context 0.
+
+global halt:
+    PANIC
 
 %macro reinitialize_memory_pre_txn
     // Reinitialize accessed addresses and storage keys lists
-- 
2.43.0


From 5d4b862f23499528fbd09434b1c653e8076e6387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:25 +0000
Subject: [PATCH 43/48] fix: refuse accounts sharing a payload

---
 .../asm/mpt/linked_list/linked_list.asm       | 32 +++++++++++++++++--
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
index 5c34fad..55692d7 100644
--- a/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
+++ b/evm_arithmetization/src/cpu/kernel/asm/mpt/linked_list/linked_list.asm
@@ -38,8 +38,9 @@
 /// the accounts, storing a pointer to the copied account in the node.
 /// Computes the length of `SEGMENT_ACCOUNTS_LINKED_LIST` and 
 /// stores it in `GLOBAL_METADATA_ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE`.
-/// It also checks that the next node address is current address + 4
-/// and that all keys are strictly increasing.
+/// It also checks that the next node address is current address + 4,
+/// that all keys are strictly increasing, and that the payloads lie one after
+/// another before their copies.
 /// NOTE: It may be more efficient to check that the next node addres != U256_MAX
 /// (i.e. node was not deleted) and ensure that no node with repeated key
 /// is ever read.
@@ -54,7 +55,7 @@ global store_initial_accounts:
     DUP1
     MLOAD_GENERAL
     // stack: current_addr_key, current_node_ptr, cur_len', retdest
-    %assert_eq_const(@U256_MAX)
+    NOT %assert_zero // current_addr_key == @U256_MAX
     DUP1
     %next_account
     // stack: next_node_ptr, current_node_ptr, cur_len', retdest
@@ -111,6 +112,15 @@ loop_store_initial_accounts:
     %next_initial_account
     %assert_eq(store_initial_accounts_end_pop_key) // next_node_ptr ==  current_node_ptr + node_size
     // stack: next_node_ptr, current_addr_key, cur_len', retdest
+    // Check that the next payload follows the current one.
+    PUSH 3 DUP2 SUB
+    MLOAD_GENERAL
+    %add_const(4)
+    DUP2
+    %increment
+    MLOAD_GENERAL
+    %assert_eq
+    // stack: next_node_ptr, current_addr_key, cur_len', retdest
     SWAP1
     DUP2
     MLOAD_GENERAL
@@ -125,6 +135,22 @@ store_initial_accounts_end:
     // stack: next_node_ptr, cur_len', retdest
     %assert_eq_const(@SEGMENT_ACCOUNTS_LINKED_LIST)
     // stack: cur_len, retdest
+    // Check that the copies follow the payloads, so that no payload is ever shared with another
+    // account or overwritten: last_payload_ptr + 4 * number of accounts <= last_cpy_ptr.
+    PUSH 2 DUP2 SUB
+    MLOAD_GENERAL
+    PUSH 3 DUP3 SUB
+    MLOAD_GENERAL
+    // stack: last_payload_ptr, last_cpy_ptr, cur_len, retdest
+    PUSH @ACCOUNTS_LINKED_LISTS_NODE_SIZE
+    PUSH @SEGMENT_ACCOUNTS_LINKED_LIST
+    ADD
+    DUP4
+    SUB
+    // stack: 4 * number of accounts, last_payload_ptr, last_cpy_ptr, cur_len, retdest
+    ADD
+    %assert_le
+    // stack: cur_len, retdest
     DUP1
     %mstore_global_metadata(@GLOBAL_METADATA_INITIAL_ACCOUNTS_LINKED_LIST_LEN)
     %mstore_global_metadata(@GLOBAL_METADATA_ACCOUNTS_LINKED_LIST_NEXT_AVAILABLE)
-- 
2.43.0


From 2fd9712d42670475283daa5f14518ae851307a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 44/48] fix: require blob gas and beacon root to agree between
 segments

---
 evm_arithmetization/src/proof.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/evm_arithmetization/src/proof.rs b/evm_arithmetization/src/proof.rs
index f501a96..2983517 100644
--- a/evm_arithmetization/src/proof.rs
+++ b/evm_arithmetization/src/proof.rs
@@ -1353,6 +1353,25 @@ impl BlockMetadataTarget {
             )
         }
         builder.conditional_assert_eq(condition.target, bm0.block_gas_used, bm1.block_gas_used);
+        for i in 0..2 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_blob_gas_used[i],
+                bm1.block_blob_gas_used[i],
+            );
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.block_excess_blob_gas[i],
+                bm1.block_excess_blob_gas[i],
+            );
+        }
+        for i in 0..8 {
+            builder.conditional_assert_eq(
+                condition.target,
+                bm0.parent_beacon_block_root[i],
+                bm1.parent_beacon_block_root[i],
+            );
+        }
         for i in 0..64 {
             builder.conditional_assert_eq(condition.target, bm0.block_bloom[i], bm1.block_bloom[i])
         }
-- 
2.43.0


From 7830c8505eecd4189798d5584d5d7bcb55a1d9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 45/48] fix: carry the checkpoint's consolidated hash through
 aggregation

---
 .../src/fixed_recursive_verifier.rs           | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index 642e15a..ec88c2c 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1653,6 +1653,18 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // Connect checkpoint consolidated block hashes.
+        for i in 0..NUM_HASH_OUT_ELTS {
+            builder.connect(
+                pvs.checkpoint_consolidated_hash[i],
+                lhs.checkpoint_consolidated_hash[i],
+            );
+            builder.connect(
+                pvs.checkpoint_consolidated_hash[i],
+                rhs.checkpoint_consolidated_hash[i],
+            );
+        }
+
         // Connect the transaction number in public values to the lhs and rhs values
         // correctly.
         builder.connect(pvs.txn_number_before, lhs.txn_number_before);
@@ -1939,6 +1951,16 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // If there is a parent block, the consolidated block hashes at the checkpoint
+        // remain unchanged.
+        for i in 0..NUM_HASH_OUT_ELTS {
+            builder.conditional_assert_eq(
+                has_parent_block.target,
+                lhs.extra_block_data.checkpoint_consolidated_hash[i],
+                rhs.extra_block_data.checkpoint_consolidated_hash[i],
+            );
+        }
+
         // Connect block numbers.
         let one = builder.one();
         let prev_block_nb = builder.sub(rhs.block_metadata.block_number, one);
-- 
2.43.0


From c41b4ca40ea7e90e5c9a00eb8323cd71ad06bde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 46/48] fix: require a block and its parent to be of the same
 chain

---
 evm_arithmetization/src/fixed_recursive_verifier.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index ec88c2c..a39c1eb 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1951,6 +1951,13 @@ where
             builder.connect(limb0, limb1);
         }
 
+        // If there is a parent block, it is of the same chain.
+        builder.conditional_assert_eq(
+            has_parent_block.target,
+            lhs.block_metadata.block_chain_id,
+            rhs.block_metadata.block_chain_id,
+        );
+
         // If there is a parent block, the consolidated block hashes at the checkpoint
         // remain unchanged.
         for i in 0..NUM_HASH_OUT_ELTS {
-- 
2.43.0


From 3aea6bc0822812f9c79156d20ba2eec1d3e63c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:10 +0000
Subject: [PATCH 47/48] fix: check the verifier data of cyclic proofs used as
 base cases

---
 .../src/fixed_recursive_verifier.rs           | 48 +++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/evm_arithmetization/src/fixed_recursive_verifier.rs b/evm_arithmetization/src/fixed_recursive_verifier.rs
index a39c1eb..f64e386 100644
--- a/evm_arithmetization/src/fixed_recursive_verifier.rs
+++ b/evm_arithmetization/src/fixed_recursive_verifier.rs
@@ -1482,6 +1482,30 @@ where
         }
     }
 
+    /// Checks that a cyclic proof, verified as the base case of another circuit,
+    /// was itself built upon its own circuit: this is not enforced by its
+    /// verification, which takes any verifier data as public inputs.
+    fn check_base_cyclic_verifier_data(
+        builder: &mut CircuitBuilder<F, D>,
+        condition: Target,
+        base_proof: &ProofWithPublicInputsTarget<D>,
+        base_circuit: &CircuitData<F, C, D>,
+        base_vk: &VerifierCircuitTarget,
+    ) {
+        let pis = &base_proof.public_inputs;
+        let cyclic_vk = &pis[pis.len() - verification_key_len(base_circuit)..];
+        let base_vk = base_vk.circuit_digest.elements.iter().chain(
+            base_vk
+                .constants_sigmas_cap
+                .0
+                .iter()
+                .flat_map(|h| &h.elements),
+        );
+        for (&x, &y) in zip_eq(cyclic_vk, base_vk) {
+            builder.conditional_assert_eq(condition, x, y);
+        }
+    }
+
     fn check_init_merkle_cap(
         builder: &mut CircuitBuilder<F, D>,
         x: &PublicValuesTarget,
@@ -1604,6 +1628,14 @@ where
 
         let agg_verifier_data = builder.constant_verifier_data(&agg.circuit.verifier_only);
         builder.verify_proof::<C>(&agg_root_proof, &agg_verifier_data, &agg.circuit.common);
+        let one = builder.one();
+        Self::check_base_cyclic_verifier_data(
+            &mut builder,
+            one,
+            &agg_root_proof,
+            &agg.circuit,
+            &agg_verifier_data,
+        );
 
         while log2_ceil(builder.num_gates()) < agg.circuit.common.degree_bits() {
             builder.add_gate(NoopGate, vec![]);
@@ -1755,6 +1787,14 @@ where
                 common,
             )
             .expect("Failed to build cyclic recursion circuit");
+        let is_not_agg = builder.not(is_agg);
+        Self::check_base_cyclic_verifier_data(
+            builder,
+            is_not_agg.target,
+            &base_proof,
+            &segment_agg.circuit,
+            &inner_segment_agg_vk,
+        );
         AggregationChildTarget {
             is_agg,
             agg_proof,
@@ -1789,6 +1829,14 @@ where
             &block_verifier_data,
             &block.circuit.common,
         );
+        let one = builder.one();
+        Self::check_base_cyclic_verifier_data(
+            &mut builder,
+            one,
+            &parent_block_proof,
+            &block.circuit,
+            &block_verifier_data,
+        );
 
         // Pad to match the (non-existing yet!) 2-to-1 circuit's degree.
         // We use the block circuit's degree as target reference here, as they end up
-- 
2.43.0


From 347e35c1452dafb3a3ad2617baddc482f3015bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:58 +0000
Subject: [PATCH 48/48] verif_hooks: the circuits which aggregate proofs

---
 .../src/verif_hooks/circuits.rs               | 260 ++++++++++++++++++
 1 file changed, 260 insertions(+)

diff --git a/evm_arithmetization/src/verif_hooks/circuits.rs b/evm_arithmetization/src/verif_hooks/circuits.rs
index c7b1aac..e636c68 100644
--- a/evm_arithmetization/src/verif_hooks/circuits.rs
+++ b/evm_arithmetization/src/verif_hooks/circuits.rs
@@ -2,6 +2,7 @@
 //! This is a child of the module whose private functions it calls.
 
 use plonky2::field::goldilocks_field::GoldilocksField;
+use plonky2::field::types::Field;
 use plonky2::iop::generator::generate_partial_witness;
 use plonky2::iop::witness::Witness;
 use plonky2::plonk::config::PoseidonGoldilocksConfig;
@@ -239,3 +240,262 @@ pub fn initial_memory_cap() -> Vec<F> {
         .flat_map(|h| h.elements)
         .collect()
 }
+
+/// The circuits which aggregate proofs, above a circuit that stands for the
+/// proof of a segment: it has the shape of one, and takes any public values.
+/// Each keeps one proof, to be given to the others with any public values;
+/// that this can be verified takes hashes which ignore most of their input.
+pub struct Joins<G: GenericConfig<D, F = F> + 'static>
+where
+    G::Hasher: AlgebraicHasher<F>,
+{
+    /// Without the circuits of the tables.
+    pub all: AllRecursiveCircuits<F, G, D>,
+    proofs: [Option<ProofWithPublicInputs<F, G, D>>; 6],
+}
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
+pub enum Stage {
+    Root,
+    Segments,
+    Batches,
+    Block,
+    Wrapper,
+    Pair,
+}
+
+/// What is given to a stage: whether each child is an aggregation (the last
+/// flag of `Segments`: whether there is no second child; the flag of `Block`:
+/// whether there is a parent), all public inputs of each child, and the
+/// public values of the result.
+#[derive(Clone, Debug)]
+pub struct Join {
+    pub flags: Vec<bool>,
+    pub children: Vec<Vec<F>>,
+    pub out: Vec<F>,
+}
+
+impl<G: GenericConfig<D, F = F> + 'static> Joins<G>
+where
+    G::Hasher: AlgebraicHasher<F>,
+{
+    /// `degree` is the logarithm of the least number of rows.
+    pub fn new(degree: usize) -> Self {
+        let config = CircuitConfig::standard_recursion_config();
+        let mut inner = CircuitBuilder::<F, D>::new(config.clone()).build::<G>();
+        for _ in 0..2 {
+            let mut b = CircuitBuilder::<F, D>::new(config.clone());
+            let p = b.add_virtual_proof_with_pis(&inner.common);
+            let v = b.constant_verifier_data(&inner.verifier_only);
+            b.verify_proof::<G>(&p, &v, &inner.common);
+            b.add_gate(ConstantGate::new(config.num_constants), vec![]);
+            while b.num_gates() < 1 << 10 {
+                b.add_gate(NoopGate, vec![]);
+            }
+            inner = b.build::<G>();
+        }
+        // The circuit of a segment, but for what it verifies.
+        let mut b = CircuitBuilder::<F, D>::new(config);
+        let public_values = add_virtual_public_values_public_input(&mut b);
+        let p = b.add_virtual_proof_with_pis(&inner.common);
+        let v = b.add_virtual_verifier_data(inner.common.config.fri_config.cap_height);
+        let used = b.add_virtual_bool_target_safe();
+        b.conditionally_verify_proof_or_dummy::<G>(used, &p, &v, &inner.common)
+            .expect("no dummy proof");
+        let cyclic_vk = b.add_verifier_data_public_inputs();
+        b.add_gate(ConstantGate::new(inner.common.config.num_constants), vec![]);
+        while b.num_gates() < (1 << (degree - 1)) + 1 {
+            b.add_gate(NoopGate, vec![]);
+        }
+        let index = b.add_virtual_target();
+        let root = RootCircuitData {
+            circuit: b.build::<G>(),
+            proof_with_pis: core::array::from_fn(|_| p.clone()),
+            index_verifier_data: [index; NUM_TABLES],
+            public_values,
+            cyclic_vk,
+            table_in_use: [used; NUM_TABLES],
+        };
+        let segments = AllRecursiveCircuits::<F, G, D>::create_segment_aggregation_circuit(&root);
+        let batches = AllRecursiveCircuits::<F, G, D>::create_batch_aggregation_circuit(
+            &segments,
+            &crate::testing_utils::TEST_STARK_CONFIG,
+        );
+        let block = AllRecursiveCircuits::<F, G, D>::create_block_circuit(&batches);
+        let wrapper = AllRecursiveCircuits::<F, G, D>::create_block_wrapper_circuit(&block);
+        let pair = AllRecursiveCircuits::<F, G, D>::create_two_to_one_block_circuit(&wrapper);
+        let mut s = Self {
+            all: AllRecursiveCircuits {
+                root,
+                segment_aggregation: segments,
+                batch_aggregation: batches,
+                block,
+                block_wrapper: wrapper,
+                two_to_one_block: pair,
+                by_table: core::array::from_fn(|_| RecursiveCircuitsForTable {
+                    by_stark_size: BTreeMap::new(),
+                }),
+                table_dummy_proofs: core::array::from_fn(|_| None),
+            },
+            proofs: Default::default(),
+        };
+        // Its proof.
+        let mut w = PartialWitness::new();
+        let c = &s.all.root.circuit;
+        w.set_bool_target(s.all.root.table_in_use[0], false)
+            .unwrap();
+        let pis = &c.prover_only.public_inputs;
+        let vk = s.vk(Stage::Root);
+        for (i, &t) in pis.iter().enumerate() {
+            let x = (i + vk.len())
+                .checked_sub(pis.len())
+                .map_or(F::ZERO, |j| vk[j]);
+            w.set_target(t, x).unwrap();
+        }
+        // Not used, but a proof of its shape must be there.
+        let dummy = plonky2::recursion::dummy_circuit::dummy_circuit::<F, G, D>(&inner.common);
+        let proof = plonky2::recursion::dummy_circuit::dummy_proof(&dummy, HashMap::new()).unwrap();
+        w.set_proof_with_pis_target(&p, &proof).unwrap();
+        w.set_verifier_data_target(&v, &dummy.verifier_only)
+            .unwrap();
+        s.proofs[0] = Some(c.prove(w).unwrap());
+        s
+    }
+
+    fn circuit(&self, s: Stage) -> &CircuitData<F, G, D> {
+        match s {
+            Stage::Root => &self.all.root.circuit,
+            Stage::Segments => &self.all.segment_aggregation.circuit,
+            Stage::Batches => &self.all.batch_aggregation.circuit,
+            Stage::Block => &self.all.block.circuit,
+            Stage::Wrapper => &self.all.block_wrapper.circuit,
+            Stage::Pair => &self.all.two_to_one_block.circuit,
+        }
+    }
+
+    /// What identifies the circuit of a stage, as it ends public inputs.
+    pub fn vk(&self, s: Stage) -> Vec<F> {
+        let v = &self.circuit(s).verifier_only;
+        [
+            v.circuit_digest.elements.to_vec(),
+            v.constants_sigmas_cap.flatten(),
+        ]
+        .concat()
+    }
+
+    /// The cap of the first memory, with this configuration's hash.
+    pub fn first_memory(&self) -> Vec<F> {
+        let c = crate::testing_utils::TEST_STARK_CONFIG.fri_config;
+        initial_memory_merkle_cap::<F, G, D>(c.rate_bits, c.cap_height).flatten()
+    }
+
+    pub fn num_public_inputs(&self, s: Stage) -> usize {
+        self.circuit(s).common.num_public_inputs
+    }
+
+    pub fn degree_bits(&self, s: Stage) -> usize {
+        self.circuit(s).common.degree_bits()
+    }
+
+    /// The proof kept for a stage, with these public inputs.
+    pub fn proof(&self, s: Stage, public_inputs: &[F]) -> ProofWithPublicInputs<F, G, D> {
+        ProofWithPublicInputs {
+            proof: self.proofs[s as usize].as_ref().unwrap().proof.clone(),
+            public_inputs: public_inputs.to_vec(),
+        }
+    }
+
+    /// What to give for a stage's children.
+    fn witness(&self, s: Stage, j: &Join) -> anyhow::Result<PartialWitness<F>> {
+        let mut w = PartialWitness::new();
+        let c = self.circuit(s);
+        let pis = &c.prover_only.public_inputs;
+        let vk = self.vk(s);
+        for (&t, &v) in pis.iter().zip(&j.out) {
+            w.set_target(t, v)?;
+        }
+        for (&t, &v) in pis[pis.len() - vk.len()..].iter().zip(&vk) {
+            w.set_target(t, v)?;
+        }
+        let with = |of: Stage, public_inputs: &[F]| self.proof(of, public_inputs);
+        let idle = |of: Stage| {
+            let mut v = vec![F::ZERO; pis.len() - vk.len()];
+            v.extend(&vk);
+            with(of, &v)
+        };
+        let mut child =
+            |t: &AggregationChildTarget<D>, i: usize, base: Stage| -> anyhow::Result<()> {
+                w.set_bool_target(t.is_agg, j.flags[i])?;
+                if j.flags[i] {
+                    w.set_proof_with_pis_target(&t.agg_proof, &with(s, &j.children[i]))?;
+                    w.set_proof_with_pis_target(&t.base_proof, &with(base, &j.children[i]))
+                } else {
+                    w.set_proof_with_pis_target(&t.agg_proof, &idle(base))?;
+                    w.set_proof_with_pis_target(&t.base_proof, &with(base, &j.children[i]))
+                }
+            };
+        match s {
+            Stage::Root => anyhow::bail!("has no children"),
+            Stage::Segments => {
+                child(&self.all.segment_aggregation.lhs, 0, Stage::Root)?;
+                let t = &self.all.segment_aggregation.rhs;
+                w.set_bool_target(t.is_agg, j.flags[1])?;
+                w.set_bool_target(t.is_dummy, j.flags[2])?;
+                if j.flags[1] {
+                    w.set_proof_with_pis_target(&t.agg_proof, &with(s, &j.children[1]))?;
+                } else {
+                    w.set_proof_with_pis_target(&t.agg_proof, &idle(Stage::Root))?;
+                }
+                w.set_proof_with_pis_target(&t.real_proof, &with(Stage::Root, &j.children[1]))?;
+            }
+            Stage::Batches => {
+                child(&self.all.batch_aggregation.lhs, 0, Stage::Segments)?;
+                child(&self.all.batch_aggregation.rhs, 1, Stage::Segments)?;
+            }
+            Stage::Block => {
+                w.set_bool_target(self.all.block.has_parent_block, j.flags[0])?;
+                let of = if self.proofs[s as usize].is_some() {
+                    s
+                } else {
+                    Stage::Root
+                };
+                w.set_proof_with_pis_target(
+                    &self.all.block.parent_block_proof,
+                    &with(of, &j.children[0]),
+                )?;
+                w.set_proof_with_pis_target(
+                    &self.all.block.agg_root_proof,
+                    &with(Stage::Batches, &j.children[1]),
+                )?;
+            }
+            Stage::Wrapper => w.set_proof_with_pis_target(
+                &self.all.block_wrapper.parent_block_proof,
+                &with(Stage::Block, &j.children[0]),
+            )?,
+            Stage::Pair => {
+                child(&self.all.two_to_one_block.lhs, 0, Stage::Wrapper)?;
+                child(&self.all.two_to_one_block.rhs, 1, Stage::Wrapper)?;
+            }
+        }
+        Ok(w)
+    }
+
+    /// Whether the stage takes this. May panic if not.
+    pub fn accepts(&self, s: Stage, j: &Join) -> Result<(), String> {
+        let c = self.circuit(s);
+        let w = self.witness(s, j).map_err(|e| e.to_string())?;
+        generate_partial_witness(w, &c.prover_only, &c.common)
+            .map(|_| ())
+            .map_err(|e| e.to_string())
+    }
+
+    /// Proves it, verifies the proof and keeps it for further stages.
+    pub fn prove(&mut self, s: Stage, j: &Join) -> Result<(), String> {
+        let c = self.circuit(s);
+        let w = self.witness(s, j).map_err(|e| e.to_string())?;
+        let p = c.prove(w).map_err(|e| e.to_string())?;
+        c.verify(p.clone()).map_err(|e| e.to_string())?;
+        self.proofs[s as usize] = Some(p);
+        Ok(())
+    }
+}
-- 
2.43.0

