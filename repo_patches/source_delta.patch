From 6265165902dcfb7c129197e3440230caeadd7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 01/19] fix: validate proofs with the row heights the tree was
 built with

---
 src/proof.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index 2a56d9a..74cc656 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -119,7 +119,9 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 return Ok(false);
             }
 
-            a.multi_node(&nodes, 0)
+            // Sub-tree roots are combined at height 1 (see
+            // MerkleTree::from_trees and MerkleTree::from_sub_trees).
+            a.multi_node(&nodes, 1)
         };
 
         Ok(h == self.root())
@@ -187,7 +189,9 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
                 }
 
                 path_index += 1;
-                a.multi_node(&nodes, i - 1)
+                // The height of the row being hashed, as used by the
+                // build (path_index is 1 based, and already advanced).
+                a.multi_node(&nodes, path_index - 2)
             };
         }
 
-- 
2.43.0


From 9677e45ab4ac01900bd7f72375a3591e7f6ed9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 02/19] fix: return the target leaf from Proof::item for
 compound proofs

---
 src/proof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/proof.rs b/src/proof.rs
index 74cc656..ae2215b 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -60,6 +60,11 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Return proof target leaf
     pub fn item(&self) -> T {
+        // The target leaf of a compound proof is the one of its base layer proof.
+        if let Some(sub_tree_proof) = &self.sub_tree_proof {
+            return sub_tree_proof.item();
+        }
+
         self.lemma
             .first()
             .expect("[item] requested element is empty")
-- 
2.43.0


From 69f433a7435383825d0caf8c9fb3b58d18fc4c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 03/19] fix: reject malformed proofs instead of panicking in
 Proof::validate

---
 src/proof.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/proof.rs b/src/proof.rs
index ae2215b..e8d3656 100644
--- a/src/proof.rs
+++ b/src/proof.rs
@@ -88,13 +88,19 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
 
     /// Validates sub-tree proofs with the specified arity.
     fn validate_sub_tree_proof<A: Algorithm<T>>(&self, arity: usize) -> Result<bool> {
+        // A well formed proof of this layer has the roots of all other
+        // sub-trees followed by the root, and a single path index.
+        if self.lemma.len() != arity || self.path.len() != 1 {
+            return Ok(false);
+        }
+
         // Ensure that the sub_tree validates to the root of that
         // sub_tree.
-        let valid = self
+        let sub_tree_proof = self
             .sub_tree_proof
             .as_ref()
-            .expect("[validate_sub_tree_proof] couldn't get sub_tree_proof value")
-            .validate::<A>()?;
+            .expect("[validate_sub_tree_proof] couldn't get sub_tree_proof value");
+        let valid = sub_tree_proof.validate::<A>()?;
         if !valid {
             return Ok(valid);
         }
@@ -113,7 +119,7 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
             let mut cur_index = 0;
             for j in 0..node_count {
                 if j == self.path()[0] {
-                    nodes.push(self.sub_tree_root().clone());
+                    nodes.push(sub_tree_proof.root());
                 } else {
                     nodes.push(self.lemma()[cur_index].clone());
                     cur_index += 1;
@@ -171,6 +177,10 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         }
 
         let branches = BaseTreeArity::to_usize();
+        if size != get_merkle_proof_lemma_len(self.path.len() + 1, branches) {
+            return Ok(false);
+        }
+
         let mut a = A::default();
         let mut h = self.item();
         let mut path_index = 1;
@@ -211,11 +221,8 @@ impl<T: Eq + Clone + AsRef<[u8]>, BaseTreeArity: Unsigned> Proof<T, BaseTreeArit
         a.reset();
         let leaf_hash = a.leaf(item);
 
-        if leaf_hash == self.item() {
-            self.validate::<A>()
-        } else {
-            Ok(false)
-        }
+        // Only a well formed proof is known to have a target leaf.
+        Ok(self.validate::<A>()? && leaf_hash == self.item())
     }
 
     /// Returns the path of this proof.
-- 
2.43.0


From 953d695feacf0a8e72ca061925aa1ae48123becf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 04/19] fix: return an error for out of range leaves of
 compound trees

---
 src/merkle.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index ba17492..1fda7d5 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -866,6 +866,12 @@ impl<
         arity: usize,
     ) -> Result<Proof<E, BaseTreeArity>> {
         ensure!(arity != 0, "Invalid sub-tree arity");
+        ensure!(
+            i < self.leafs,
+            "{} is out of bounds (max: {})",
+            i,
+            self.leafs
+        ); // i in [0 .. self.leafs)
 
         // Locate the sub-tree the leaf is contained in.
         let tree_index = i / (self.leafs / arity);
@@ -1437,6 +1443,12 @@ impl<
                     TopTreeArity::to_usize() == sub_trees.len(),
                     "Top layer tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                );
                 let tree_index = i / (self.leafs / TopTreeArity::to_usize());
                 let tree = &sub_trees[tree_index];
                 let tree_leafs = tree.leafs();
@@ -1452,6 +1464,12 @@ impl<
                     SubTreeArity::to_usize() == base_trees.len(),
                     "Sub-tree shape mis-match"
                 );
+                ensure!(
+                    i < self.leafs,
+                    "{} is out of bounds (max: {})",
+                    i,
+                    self.leafs
+                );
                 let tree_index = i / (self.leafs / SubTreeArity::to_usize());
                 let tree = &base_trees[tree_index];
                 let tree_leafs = tree.leafs();
-- 
2.43.0


From af66cb9c3e0f2319911378a1b1e40dabd35ed2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 05/19] fix: return iterator errors from
 try_from_iter_with_config

---
 src/merkle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 1fda7d5..0e60ab2 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1817,7 +1817,7 @@ impl<
         }
 
         populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .expect("failed to populate data");
+            .context("failed to populate data")?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
 
         Ok(MerkleTree {
-- 
2.43.0


From 4422a11a371d48d2c2709c022208112142ce0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:38 +0000
Subject: [PATCH 06/19] fix: reject even tree lengths in get_merkle_tree_leafs
 for binary trees

---
 src/merkle.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 0e60ab2..c41e47d 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1987,6 +1987,10 @@ pub fn get_merkle_tree_leafs(len: usize, branches: usize) -> Result<usize> {
     let leafs = {
         // Optimization:
         if branches == 2 {
+            ensure!(
+                len % 2 == 1,
+                "Invalid tree length provided for the specified arity"
+            );
             (len >> 1) + 1
         } else {
             let mut leafs = 1;
-- 
2.43.0


From a2f85ed002fe4c7426584988d567946e77d03e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 07/19] fix: do not leave an incomplete store behind when a
 build fails

---
 src/merkle.rs            | 41 ++++++++++++++++++++++++++++++++++------
 src/store/level_cache.rs | 15 ++++++++-------
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index c41e47d..071abac 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1539,7 +1539,16 @@ impl<
 
         let mut data = S::new_from_slice_with_config(size, branches, leafs, config.clone())
             .context("failed to create data store")?;
-        let root = S::build::<A, BaseTreeArity>(&mut data, leafs_count, row_count, Some(config))?;
+        let loaded_from_disk = data.loaded_from_disk();
+        let root =
+            S::build::<A, BaseTreeArity>(&mut data, leafs_count, row_count, Some(config.clone()))
+                .or_else(|err| {
+                    if loaded_from_disk {
+                        // Not ours to remove.
+                        return Err(err);
+                    }
+                    remove_incomplete_store::<E, S>(config, err)
+                })?;
 
         Ok(MerkleTree {
             data: Data::BaseTree(data),
@@ -1707,8 +1716,11 @@ impl<
             });
         }
 
-        populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)?;
-        let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
+        let root = populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)
+            .and_then(|_| {
+                S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config.clone()))
+            })
+            .or_else(|err| remove_incomplete_store::<E, S>(config, err))?;
 
         Ok(MerkleTree {
             data: Data::BaseTree(data),
@@ -1816,9 +1828,12 @@ impl<
             });
         }
 
-        populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
-            .context("failed to populate data")?;
-        let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config))?;
+        let root = populate_data::<E, A, S, BaseTreeArity, I>(&mut data, iter)
+            .context("failed to populate data")
+            .and_then(|_| {
+                S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, Some(config.clone()))
+            })
+            .or_else(|err| remove_incomplete_store::<E, S>(config, err))?;
 
         Ok(MerkleTree {
             data: Data::BaseTree(data),
@@ -2032,6 +2047,20 @@ pub fn log2_pow2(n: usize) -> usize {
     n.trailing_zeros() as usize
 }
 
+// Called with the error of a failed build of a newly created store.  An
+// incomplete store must not stay behind, since it would be taken for a
+// complete tree the next time that its config is used.
+fn remove_incomplete_store<E: Element, S: Store<E>>(
+    config: StoreConfig,
+    err: anyhow::Error,
+) -> Result<E> {
+    if let Err(delete_err) = S::delete(config) {
+        debug!("failed to remove incomplete store: {:?}", delete_err);
+    }
+
+    Err(err)
+}
+
 pub fn populate_data<
     E: Element,
     A: Algorithm<E>,
diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 8275fef..c250993 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -162,13 +162,6 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             return Self::new_from_disk(size, branches, &config);
         }
 
-        // Otherwise, create the file and allow it to be the on-disk store.
-        let file = OpenOptions::new()
-            .write(true)
-            .read(true)
-            .create_new(true)
-            .open(data_path)?;
-
         let store_size = E::byte_len() * size;
         let leafs = get_merkle_tree_leafs(size, branches)?;
 
@@ -183,6 +176,14 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             get_merkle_tree_cache_size(leafs, branches, config.rows_to_discard)? * E::byte_len();
         let cache_index_start = store_size - cache_size;
 
+        // Otherwise, create the file and allow it to be the on-disk
+        // store (only once the configuration is known to be valid).
+        let file = OpenOptions::new()
+            .write(true)
+            .read(true)
+            .create_new(true)
+            .open(data_path)?;
+
         file.set_len(store_size as u64)?;
 
         Ok(LevelCacheStore {
-- 
2.43.0


From 09daf69b88a6f610850c2e012bcf67ff69cc480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:26 +0000
Subject: [PATCH 08/19] fix: do not create missing stores in from_store_configs

---
 src/merkle.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 071abac..3b90f6d 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -780,6 +780,11 @@ impl<
         let branches = BaseTreeArity::to_usize();
         let mut trees = Vec::with_capacity(configs.len());
         for config in configs {
+            // Do not let the store be created (empty) if it's missing.
+            ensure!(
+                StoreConfig::data_path(&config.path, &config.id).exists(),
+                "Store configs must refer to existing stores"
+            );
             let data = S::new_with_config(
                 get_merkle_tree_len(leafs, branches)?,
                 branches,
-- 
2.43.0


From 428f9f79c641ecfd277d3bc7467f98876f4e362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:27 +0000
Subject: [PATCH 09/19] fix: reject mismatched numbers of configs when
 assembling compound trees

---
 src/merkle.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/merkle.rs b/src/merkle.rs
index 3b90f6d..a1169d8 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -292,6 +292,14 @@ impl<
         );
 
         let sub_tree_count = TopTreeArity::to_usize();
+        ensure!(
+            sub_tree_count > 0,
+            "Cannot use from_sub_tree_store_configs_and_replica if not constructing a structure with a top layer"
+        );
+        ensure!(
+            configs.len() == sub_tree_count * SubTreeArity::to_usize(),
+            "Number of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / sub_tree_count;
@@ -735,6 +743,10 @@ impl<
         leafs: usize,
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
+        ensure!(
+            tree_data.len() == configs.len(),
+            "Slice and config lists lengths are invalid"
+        );
         let mut trees = Vec::with_capacity(tree_data.len());
         for i in 0..tree_data.len() {
             trees.push(
@@ -810,6 +822,14 @@ impl<
         configs: &[StoreConfig],
     ) -> Result<MerkleTree<E, A, S, BaseTreeArity, SubTreeArity, TopTreeArity>> {
         let tree_count = TopTreeArity::to_usize();
+        ensure!(
+            tree_count > 0,
+            "Cannot use from_sub_tree_store_configs if not constructing a structure with a top layer"
+        );
+        ensure!(
+            configs.len() == tree_count * SubTreeArity::to_usize(),
+            "Number of configs MUST equal the number of base trees"
+        );
 
         let mut start = 0;
         let mut end = configs.len() / tree_count;
-- 
2.43.0


From 06ace4540ee28cafa5f93e38dfdb0502d8685cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 10/19] fix: never serve reads of discarded rows from a
 LevelCacheStore

---
 src/store/level_cache.rs | 42 +++++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index c250993..4d5fbde 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -352,10 +352,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_available(start, end), "out of bounds");
 
         Ok(E::from_slice(&self.store_read_range(start, end)?))
     }
@@ -367,10 +364,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_available(start, end), "out of bounds");
 
         self.store_read_into(start, end, buf)
     }
@@ -382,10 +376,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_available(start, end), "out of bounds");
 
         self.store_read_into(start, end, buf)
     }
@@ -397,10 +388,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         let len = self.len * self.elem_len;
         ensure!(start < len, "start out of range {} >= {}", start, len);
         ensure!(end <= len, "end out of range {} > {}", end, len);
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_available(start, end), "out of bounds");
 
         Ok(self
             .store_read_range(start, end)?
@@ -704,15 +692,24 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
         Ok(store_size == cache_size)
     }
 
+    // Only the base layer and the cached rows are available, so a read
+    // (of the specified range, in bytes) must not touch the discarded rows
+    // in between.  It must not extend over both either, unless nothing was
+    // discarded and both are adjacent in the same file.
+    fn is_available(&self, start: usize, end: usize) -> bool {
+        let data_end = self.data_width * self.elem_len;
+
+        end <= data_end
+            || start >= self.cache_index_start
+            || (self.reader.is_none() && self.cache_index_start <= data_end)
+    }
+
     pub fn store_read_range(&self, start: usize, end: usize) -> Result<Vec<u8>> {
         let read_len = end - start;
         let mut read_data = vec![0; read_len];
         let mut adjusted_start = start;
 
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "out of bounds"
-        );
+        ensure!(self.is_available(start, end), "out of bounds");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
@@ -811,10 +808,7 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
     }
 
     pub fn store_read_into(&self, start: usize, end: usize, buf: &mut [u8]) -> Result<()> {
-        ensure!(
-            start <= self.data_width * self.elem_len || start >= self.cache_index_start,
-            "Invalid read start"
-        );
+        ensure!(self.is_available(start, end), "Invalid read range");
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-- 
2.43.0


From 1bf256b56cb676d2611a38c933ad39076beeacf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:00 +0000
Subject: [PATCH 11/19] fix: discard rows when a LevelCacheStore is created
 from a complete tree

---
 src/store/level_cache.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index 4d5fbde..f0e6c96 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -236,7 +236,18 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
         // since it can be assumed by the config that the data is
         // already correct).
         if !store.loaded_from_disk {
-            store.store_copy_from_slice(0, data)?;
+            let data_end = store.data_width * store.elem_len;
+            if data.len() == store.store_size && store.cache_index_start > data_end {
+                // This is a complete tree, which is stored as it's read
+                // back (and as compacted by v1): the base layer,
+                // followed by the cached rows.
+                store.store_copy_from_slice(0, &data[..data_end])?;
+                store.store_copy_from_slice(data_end, &data[store.cache_index_start..])?;
+                store.store_size = data_end + data.len() - store.cache_index_start;
+                store.file.set_len(store.store_size as u64)?;
+            } else {
+                store.store_copy_from_slice(0, data)?;
+            }
             store.len = data.len() / store.elem_len;
         }
 
-- 
2.43.0


From d31b2680bf783d51284d348852fff0a3d85627da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:32 +0000
Subject: [PATCH 12/19] fix: return an error for writes beyond the capacity of
 a MmapStore

Building a tree with a number of leafs that the arity does not support
(e.g. 128 leafs, arity 4) writes past the end of the store before the row
count is found to be wrong.  DiskStore rejects such a write, MmapStore
panicked.
---
 src/store/mmap.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index b2abbd3..e19ac65 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -119,8 +119,14 @@ impl<E: Element> Store<E> for MmapStore<E> {
             self.reinit()?;
         }
 
-        //unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[start..end].copy_from_slice(el.as_ref());
+        // unwrap is safe as we checked map to be initialised
+        let map = self.map.as_mut().unwrap();
+        ensure!(
+            end <= map.len(),
+            "Requested element out of range (max: {})",
+            map.len()
+        );
+        map[start..end].copy_from_slice(el.as_ref());
         self.len = std::cmp::max(self.len, index + 1);
 
         Ok(())
@@ -141,7 +147,13 @@ impl<E: Element> Store<E> for MmapStore<E> {
         }
 
         // unwrap is safe as we checked map to be initialised
-        self.map.as_mut().unwrap()[map_start..map_end].copy_from_slice(buf);
+        let map = self.map.as_mut().unwrap();
+        ensure!(
+            map_end <= map.len(),
+            "Requested slice too large (max: {})",
+            map.len()
+        );
+        map[map_start..map_end].copy_from_slice(buf);
         self.len = std::cmp::max(self.len, start + (buf.len() / E::byte_len()));
 
         Ok(())
-- 
2.43.0


From 1885b39ec0367109b58b216ee1d4602b10eb5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 13/19] fix: report MmapStores that were loaded from disk

An existing file is loaded, but was not reported as loaded: building
over a persisted tree failed, and creating it from a complete tree
overwrote the file.
---
 src/store/mmap.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index e19ac65..245a464 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -16,6 +16,12 @@ pub struct MmapStore<E: Element> {
     map: Option<MmapMut>,
     file: File,
     len: usize,
+
+    // This flag is useful only immediate after instantiation, which
+    // is false if the store was newly initialized and true if the
+    // store was loaded from already existing on-disk data.
+    loaded_from_disk: bool,
+
     _e: PhantomData<E>,
 }
 
@@ -53,6 +59,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: 0,
+            loaded_from_disk: false,
             _e: Default::default(),
         })
     }
@@ -70,6 +77,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: 0,
+            loaded_from_disk: false,
             _e: Default::default(),
         })
     }
@@ -107,6 +115,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
             map: Some(map),
             file,
             len: size,
+            loaded_from_disk: true,
             _e: Default::default(),
         })
     }
@@ -269,7 +278,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
     }
 
     fn loaded_from_disk(&self) -> bool {
-        false
+        self.loaded_from_disk
     }
 
     fn compact(
-- 
2.43.0


From 32c4898fbf97ac76906d6351f264dbb0341c4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 14/19] fix: remove the file of a MmapStore on delete

Like the other stores that persist to a config.  This includes the
incomplete store of a failed build, which could be opened as a
complete tree afterwards.
---
 src/store/mmap.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 245a464..0e3a430 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -1,4 +1,4 @@
-use std::fs::{File, OpenOptions};
+use std::fs::{remove_file, File, OpenOptions};
 use std::marker::PhantomData;
 use std::ops;
 use std::path::Path;
@@ -300,8 +300,9 @@ impl<E: Element> Store<E> for MmapStore<E> {
         Ok(())
     }
 
-    fn delete(_config: StoreConfig) -> Result<()> {
-        Ok(())
+    fn delete(config: StoreConfig) -> Result<()> {
+        let path = StoreConfig::data_path(&config.path, &config.id);
+        remove_file(&path).with_context(|| format!("Failed to delete {:?}", &path))
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From ba63c9d1210f510bce3bcc802d0bc99f79311fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:21 +0000
Subject: [PATCH 15/19] fix: return an error instead of panicking if a store
 cannot be opened or created

---
 src/merkle.rs     | 2 +-
 src/store/mmap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index a1169d8..325a9ba 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -1679,7 +1679,7 @@ impl<
         let size = get_merkle_tree_len(leafs, branches)?;
         let row_count = get_merkle_tree_row_count(leafs, branches);
 
-        let mut data = S::new(size).expect("failed to create data store");
+        let mut data = S::new(size).context("failed to create data store")?;
 
         populate_data_par::<E, A, S, BaseTreeArity, _>(&mut data, iter)?;
         let root = S::build::<A, BaseTreeArity>(&mut data, leafs, row_count, None)?;
diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 0e3a430..9b6eee6 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -94,7 +94,7 @@ impl<E: Element> Store<E> for MmapStore<E> {
                 if e.kind() == std::io::ErrorKind::PermissionDenied {
                     error!("MmapStore doesn't support read-only storages");
                 }
-                panic!("{}", e)
+                return Err(e).with_context(|| format!("Failed to open {:?}", &data_path));
             }
         };
 
-- 
2.43.0


From 4dd593809dbdc898023f71001de47a64fe0e225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 16/19] fix: read a LevelCacheStore without a config from where
 it was written

---
 src/store/level_cache.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index f0e6c96..bb55934 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -209,7 +209,8 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             elem_len: E::byte_len(),
             file,
             data_width: size,
-            cache_index_start: 0,
+            // Without a config nothing is cached, everything is read from where it was written.
+            cache_index_start: store_size,
             store_size,
             loaded_from_disk: false,
             reader: None,
-- 
2.43.0


From b02d2c7820a0cc5486d111c155343369c0809cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:05 +0000
Subject: [PATCH 17/19] fix: remove the file of a new store that cannot be
 initialized

---
 src/store/disk.rs        | 14 ++++++++++----
 src/store/level_cache.rs | 24 ++++++++++++++++--------
 src/store/mmap.rs        |  9 +++++----
 src/store/mod.rs         | 16 ++++++++++++++--
 4 files changed, 45 insertions(+), 18 deletions(-)

diff --git a/src/store/disk.rs b/src/store/disk.rs
index 592c2ec..2e3c713 100644
--- a/src/store/disk.rs
+++ b/src/store/disk.rs
@@ -20,7 +20,9 @@ use crate::merkle::{
     get_merkle_tree_cache_size, get_merkle_tree_leafs, get_merkle_tree_len, log2_pow2, next_pow2,
     Element,
 };
-use crate::store::{Store, StoreConfig, StoreConfigDataVersion, BUILD_CHUNK_NODES};
+use crate::store::{
+    remove_incomplete, Store, StoreConfig, StoreConfigDataVersion, BUILD_CHUNK_NODES,
+};
 
 /// The Disk-only store is used to reduce memory to the minimum at the
 /// cost of build time performance. Most of its I/O logic is in the
@@ -57,10 +59,11 @@ impl<E: Element> Store<E> for DiskStore<E> {
             .write(true)
             .read(true)
             .create_new(true)
-            .open(data_path)?;
+            .open(&data_path)?;
 
         let store_size = E::byte_len() * size;
-        file.set_len(store_size as u64)?;
+        file.set_len(store_size as u64)
+            .map_err(|err| remove_incomplete(&data_path, err.into()))?;
 
         Ok(DiskStore {
             len: 0,
@@ -99,6 +102,7 @@ impl<E: Element> Store<E> for DiskStore<E> {
             E::byte_len()
         );
 
+        let data_path = StoreConfig::data_path(&config.path, &config.id);
         let mut store = Self::new_with_config(size, branches, config)?;
 
         // If the store was loaded from disk (based on the config
@@ -106,7 +110,9 @@ impl<E: Element> Store<E> for DiskStore<E> {
         // since it can be assumed by the config that the data is
         // already correct).
         if !store.loaded_from_disk {
-            store.store_copy_from_slice(0, data)?;
+            store
+                .store_copy_from_slice(0, data)
+                .map_err(|err| remove_incomplete(&data_path, err))?;
             store.len = data.len() / store.elem_len;
         }
 
diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index bb55934..c4aa81d 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -21,7 +21,7 @@ use crate::merkle::{
     get_merkle_tree_cache_size, get_merkle_tree_leafs, get_merkle_tree_len, log2_pow2, next_pow2,
     Element,
 };
-use crate::store::{ExternalReader, Store, StoreConfig, BUILD_CHUNK_NODES};
+use crate::store::{remove_incomplete, ExternalReader, Store, StoreConfig, BUILD_CHUNK_NODES};
 
 /// The LevelCacheStore is used to reduce the on-disk footprint even
 /// further to the minimum at the cost of build time performance.
@@ -182,9 +182,10 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             .write(true)
             .read(true)
             .create_new(true)
-            .open(data_path)?;
+            .open(&data_path)?;
 
-        file.set_len(store_size as u64)?;
+        file.set_len(store_size as u64)
+            .map_err(|err| remove_incomplete(&data_path, err.into()))?;
 
         Ok(LevelCacheStore {
             len: 0,
@@ -230,6 +231,7 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
             E::byte_len()
         );
 
+        let data_path = StoreConfig::data_path(&config.path, &config.id);
         let mut store = Self::new_with_config(size, branches, config)?;
 
         // If the store was loaded from disk (based on the config
@@ -242,13 +244,19 @@ impl<E: Element, R: Read + Send + Sync> Store<E> for LevelCacheStore<E, R> {
                 // This is a complete tree, which is stored as it's read
                 // back (and as compacted by v1): the base layer,
                 // followed by the cached rows.
-                store.store_copy_from_slice(0, &data[..data_end])?;
-                store.store_copy_from_slice(data_end, &data[store.cache_index_start..])?;
-                store.store_size = data_end + data.len() - store.cache_index_start;
-                store.file.set_len(store.store_size as u64)?;
+                store
+                    .store_copy_from_slice(0, &data[..data_end])
+                    .and_then(|_| {
+                        store.store_copy_from_slice(data_end, &data[store.cache_index_start..])
+                    })
+                    .and_then(|_| {
+                        store.store_size = data_end + data.len() - store.cache_index_start;
+                        Ok(store.file.set_len(store.store_size as u64)?)
+                    })
             } else {
-                store.store_copy_from_slice(0, data)?;
+                store.store_copy_from_slice(0, data)
             }
+            .map_err(|err| remove_incomplete(&data_path, err))?;
             store.len = data.len() / store.elem_len;
         }
 
diff --git a/src/store/mmap.rs b/src/store/mmap.rs
index 9b6eee6..be561dc 100644
--- a/src/store/mmap.rs
+++ b/src/store/mmap.rs
@@ -8,7 +8,7 @@ use log::error;
 use memmap2::MmapMut;
 
 use crate::merkle::Element;
-use crate::store::{Store, StoreConfig};
+use crate::store::{remove_incomplete, Store, StoreConfig};
 
 /// Store that saves the data on disk, and accesses it using memmap.
 #[derive(Debug)]
@@ -51,9 +51,10 @@ impl<E: Element> Store<E> for MmapStore<E> {
             .open(&data_path)?;
 
         let store_size = E::byte_len() * size;
-        file.set_len(store_size as u64)?;
-
-        let map = unsafe { MmapMut::map_mut(&file)? };
+        let map = file
+            .set_len(store_size as u64)
+            .and_then(|_| unsafe { MmapMut::map_mut(&file) })
+            .map_err(|err| remove_incomplete(&data_path, err.into()))?;
 
         Ok(MmapStore {
             map: Some(map),
diff --git a/src/store/mod.rs b/src/store/mod.rs
index 4e6aae7..db3c114 100644
--- a/src/store/mod.rs
+++ b/src/store/mod.rs
@@ -1,12 +1,13 @@
 use std::fmt;
-use std::fs::OpenOptions;
+use std::fs::{remove_file, OpenOptions};
 use std::io::Read;
 use std::iter::FromIterator;
 use std::ops;
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, RwLock};
 
-use anyhow::Result;
+use anyhow::{Error, Result};
+use log::debug;
 use positioned_io::ReadAt;
 use rayon::iter::plumbing::*;
 use rayon::iter::*;
@@ -197,6 +198,17 @@ impl StoreConfig {
     }
 }
 
+// Called with the error of a failed initialization of a newly created
+// file.  It must not stay behind, since it would be taken for a complete
+// store (or for an invalid one) the next time that its path is used.
+fn remove_incomplete(path: &Path, err: Error) -> Error {
+    if let Err(remove_err) = remove_file(path) {
+        debug!("failed to remove incomplete file: {:?}", remove_err);
+    }
+
+    err
+}
+
 /// Backing store of the merkle tree.
 pub trait Store<E: Element>: std::fmt::Debug + Send + Sync + Sized {
     /// Creates a new store which can store up to `size` elements.
-- 
2.43.0


From d10c2bd38ca4c366a606592aca96ade927551915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:06 +0000
Subject: [PATCH 18/19] fix: do not take a short read of outside leaves for a
 full one

---
 src/store/level_cache.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/store/level_cache.rs b/src/store/level_cache.rs
index c4aa81d..9d63d69 100644
--- a/src/store/level_cache.rs
+++ b/src/store/level_cache.rs
@@ -733,7 +733,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let bytes_read = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, &mut read_data)
@@ -744,6 +745,13 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(
+                bytes_read == read_len,
+                "failed to read {} bytes from external reader at offset {} (got {})",
+                read_len,
+                start,
+                bytes_read
+            );
 
             return Ok(read_data);
         }
@@ -832,7 +840,8 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
 
         // If an external reader was specified for the base layer, use it.
         if start < self.data_width * self.elem_len && self.reader.is_some() {
-            self.reader
+            let bytes_read = self
+                .reader
                 .as_ref()
                 .unwrap() // unwrap is safe as we checked reader to be initialised
                 .read(start, end, buf)
@@ -843,6 +852,13 @@ impl<E: Element, R: Read + Send + Sync> LevelCacheStore<E, R> {
                         start
                     )
                 })?;
+            ensure!(
+                bytes_read == end - start,
+                "failed to read {} bytes from external reader at offset {} (got {})",
+                end - start,
+                start,
+                bytes_read
+            );
         } else {
             // Adjust read index if in the cached ranged to be shifted
             // over since the data stored is compacted.
-- 
2.43.0


From bf10eaa723c9878855012973f753abd89d073ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 19/19] fix: ask the store whether it existed in
 from_store_configs

---
 src/merkle.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/merkle.rs b/src/merkle.rs
index 325a9ba..0b537ba 100644
--- a/src/merkle.rs
+++ b/src/merkle.rs
@@ -792,17 +792,19 @@ impl<
         let branches = BaseTreeArity::to_usize();
         let mut trees = Vec::with_capacity(configs.len());
         for config in configs {
-            // Do not let the store be created (empty) if it's missing.
-            ensure!(
-                StoreConfig::data_path(&config.path, &config.id).exists(),
-                "Store configs must refer to existing stores"
-            );
             let data = S::new_with_config(
                 get_merkle_tree_len(leafs, branches)?,
                 branches,
                 config.clone(),
             )
             .context("failed to create data store")?;
+            if !data.loaded_from_disk() && data.is_empty() {
+                // It was missing, do not leave it behind (empty).
+                if let Err(delete_err) = S::delete(config.clone()) {
+                    debug!("failed to remove empty store: {:?}", delete_err);
+                }
+                bail!("Store configs must refer to existing stores");
+            }
             trees.push(MerkleTree::<E, A, S, BaseTreeArity>::from_data_store(
                 data, leafs,
             )?);
-- 
2.43.0

