From 2f8d31992e620dfeff75ffc89d6072e0caddfadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:38 +0000
Subject: [PATCH 01/22] fix: extend on an unpacked tree no longer hits the
 sealed-children assertion

Extending a tree that is not packed in place violates the invariant that all
but the last child of a branch are sealed, and panicked. Fall back to
extend_unpacked for such a tree.
---
 banyan/src/tree.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..d813950 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -567,6 +567,12 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             return Ok(());
         }
         let index = tree.as_index_ref().cloned();
+        if let Some(index) = &index {
+            // a tree that is not packed can not be extended in place
+            if !self.is_packed0(tree.state().secrets(), index)? {
+                return self.extend_unpacked(tree, from);
+            }
+        }
         let index = self.extend_above(
             index.as_ref(),
             u32::max_value(),
-- 
2.43.0


From f7edf23ddd56c2c25137f45fe9eb7a4027b5d89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:38 +0000
Subject: [PATCH 02/22] fix: packing an already packed tree is a noop as
 documented

Packing a tree consisting of a single full leaf stored the link of the leaf
as the root, which can not be loaded again.
---
 banyan/src/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index d813950..49824ad 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -531,6 +531,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     /// ![packing illustration](https://ipfs.io/ipfs/QmaEDTjHSdCKyGQ3cFMCf73kE67NvffLA5agquLW5qSEVn/packing.jpg)
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
+        if self.is_packed(&initial)? {
+            return Ok(());
+        }
         let roots = self.roots(tree)?;
         self.tree_from_roots(roots, tree)?;
         let remainder: Vec<_> = self
-- 
2.43.0


From 19f964211b0068c66a4cd5ec9cfcd4d25b4edb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:42 +0000
Subject: [PATCH 03/22] fix: iter_filtered_reverse yields the elements of a
 leaf in reverse order

The elements within a chunk are always in ascending order, so they have to be
reversed when the chunks of a reverse traversal are flattened.
---
 banyan/src/forest/read.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..fef7ed0 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -610,7 +610,8 @@ where
     ) -> impl Iterator<Item = Result<(u64, T::Key, V)>> {
         self.traverse_rev0(secrets, query, index, &|_| {})
             .flat_map(|res| match res {
-                Ok(chunk) => chunk.data.into_iter().map(Ok).left_iter(),
+                // the elements within a chunk are always in ascending order
+                Ok(chunk) => chunk.data.into_iter().rev().map(Ok).left_iter(),
                 Err(cause) => iter::once(Err(cause)).right_iter(),
             })
     }
-- 
2.43.0


From a585f67695d9ba7abd1da4a3aa29a97dfb17141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:19 +0000
Subject: [PATCH 04/22] fix: pack leaves the tree untouched when it fails

---
 banyan/src/tree.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 49824ad..ddd1275 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -535,13 +535,16 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             return Ok(());
         }
         let roots = self.roots(tree)?;
-        self.tree_from_roots(roots, tree)?;
+        // go back to the initial tree if any of the steps below fails
+        let mut tree = tree.transaction();
+        self.tree_from_roots(roots, &mut tree)?;
         let remainder: Vec<_> = self
             .collect_from(&initial, tree.count())?
             .into_iter()
             .collect::<Option<Vec<_>>>()
             .ok_or_else(|| anyhow::anyhow!("found purged data"))?;
-        self.extend(tree, remainder)?;
+        self.extend(&mut tree, remainder)?;
+        tree.commit();
         Ok(())
     }
 
-- 
2.43.0


From b147485aeeadd4bb2a8e810d6964b2dc36bc63de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:12 +0000
Subject: [PATCH 05/22] fix: index iteration ends after an error instead of
 returning it forever

---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..8eed675 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // ensure we are done after the error
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From 214bf902b2af09d8b0aba1be2b6dd4a59cf6d0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:20 +0000
Subject: [PATCH 06/22] fix: reverse stream does not repeat the last offset
 after resuming with the next tree

---
 banyan/src/forest/stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..f7f22f6 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,13 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the end offset from the start of what we got. The end of
+                            // the range is inclusive, so it must be the offset before the chunk.
+                            // At offset 0 there is nothing left, and the stream terminates anyway.
+                            end_offset_ref.fetch_min(
+                                chunk.range.start.saturating_sub(1),
+                                Ordering::SeqCst,
+                            );
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0


From c7fecbdbd9fb231a88fa6dbf7708a8bcb4da5855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:57 +0000
Subject: [PATCH 07/22] fix: remove all terms of a normal form that a new term
 makes redundant

---
 banyan-utils/src/tag_index.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bc815f6..3c886c3 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -340,21 +340,14 @@ impl Dnf {
 }
 
 fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
-    let mut to_remove = None;
-    for a in aa.iter() {
-        if a.is_subset(&b) {
-            // a is larger than b. E.g. x | x&y
-            // keep a, b is redundant
-            return;
-        } else if a.is_superset(&b) {
-            // a is smaller than b, E.g. x&y | x
-            // remove a, keep b
-            to_remove = Some(a.clone());
-        }
-    }
-    if let Some(r) = to_remove {
-        aa.remove(&r);
-    }
+    // a is larger than b. E.g. x | x&y
+    // keep a, b is redundant
+    if aa.iter().any(|a| a.is_subset(&b)) {
+        return;
+    }
+    // a is smaller than b, E.g. x&y | x&z | x
+    // remove all such a, keep b
+    aa.retain(|a| !a.is_superset(&b));
     aa.insert(b);
 }
 
-- 
2.43.0


From 2fcb8f60df33769a638c74c45147b2e0228a01e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 08/22] fix: print brackets around an or that is nested in an
 or with one operand

---
 banyan-utils/src/tag_index.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index 3c886c3..e9eca68 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -187,6 +187,8 @@ impl std::fmt::Display for Expression {
         fn child_to_string(x: &Expression) -> String {
             match x {
                 Expression::Or(v) if v.len() > 1 => format!("( {} )", x),
+                // an or with a single operand is printed like that operand
+                Expression::Or(v) if v.len() == 1 => child_to_string(&v[0]),
                 _ => x.to_string(),
             }
         }
-- 
2.43.0


From b96af0803a035d238f25856c4fd09cb5ae129525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 09/22] fix: reject a tag index with an unsorted string table
 instead of reassigning tags

---
 banyan-utils/src/tag_index.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index e9eca68..b1c2124 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -27,6 +27,11 @@ pub struct TagIndex {
     pub(crate) elements: Vec<IndexSet>,
 }
 
+/// true if the elements are in ascending order and there are no duplicates
+fn is_strictly_sorted<T: Ord>(elements: &[T]) -> bool {
+    elements.windows(2).all(|w| w[0] < w[1])
+}
+
 impl Encode<DagCborCodec> for TagIndex {
     fn encode<W: std::io::Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
         // allocates like crazy
@@ -53,6 +58,8 @@ impl Decode<DagCborCodec> for TagIndex {
         anyhow::ensure!(read_u8(r)? == 0x82);
         let tags: Vec<String> = Decode::decode(c, r)?;
         let elements: Vec<Vec<u32>> = Decode::decode(c, r)?;
+        // converting an unsorted table to a set would change the meaning of the indices
+        anyhow::ensure!(is_strictly_sorted(&tags), "string table not sorted");
         // allocates like crazy
         let tags: VecSet<[SmolStr; 4]> = tags.into_iter().map(SmolStr::new).collect();
         let elements: Vec<VecSet<[u32; 4]>> = elements
@@ -79,7 +86,12 @@ impl Serialize for TagIndex {
 
 impl<'de> Deserialize<'de> for TagIndex {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> std::result::Result<Self, D::Error> {
-        let (tags, elements) = <(TagSet, Vec<IndexSet>)>::deserialize(deserializer)?;
+        let (tags, elements) = <(Vec<Tag>, Vec<IndexSet>)>::deserialize(deserializer)?;
+        // converting an unsorted table to a set would change the meaning of the indices
+        if !is_strictly_sorted(&tags) {
+            return Err(serde::de::Error::custom("string table not sorted"));
+        }
+        let tags: TagSet = tags.into_iter().collect();
         // ensure valid indices
         for s in &elements {
             for x in s {
-- 
2.43.0


From 85e24b93f8b06a2f20633a53c544625c6288b6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:58 +0000
Subject: [PATCH 10/22] fix: reject a key sequence with columns of different
 lengths

---
 banyan-utils/src/tags.rs | 50 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..0127315 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -278,7 +278,8 @@ impl Query<TT> for DnfQuery {
     }
 }
 
-#[derive(Clone, Debug, Serialize, Deserialize, DagCbor)]
+#[derive(Clone, Debug, Serialize, Deserialize)]
+#[serde(try_from = "KeySeqIo")]
 pub struct KeySeq {
     min_lamport: Vec<u64>,
     min_time: Vec<u64>,
@@ -286,6 +287,53 @@ pub struct KeySeq {
     tags: TagIndex,
 }
 
+/// encoded form of a KeySeq, the columns might have different lengths
+#[derive(Deserialize, DagCbor)]
+struct KeySeqIo {
+    min_lamport: Vec<u64>,
+    min_time: Vec<u64>,
+    max_time: Vec<u64>,
+    tags: TagIndex,
+}
+
+impl TryFrom<KeySeqIo> for KeySeq {
+    type Error = anyhow::Error;
+
+    fn try_from(value: KeySeqIo) -> Result<Self, Self::Error> {
+        let len = value.tags.elements.len();
+        anyhow::ensure!(
+            value.min_lamport.len() == len
+                && value.min_time.len() == len
+                && value.max_time.len() == len,
+            "columns of key sequence must have the same length"
+        );
+        Ok(Self {
+            min_lamport: value.min_lamport,
+            min_time: value.min_time,
+            max_time: value.max_time,
+            tags: value.tags,
+        })
+    }
+}
+
+impl Encode<DagCborCodec> for KeySeq {
+    fn encode<W: Write>(&self, c: DagCborCodec, w: &mut W) -> anyhow::Result<()> {
+        KeySeqIo {
+            min_lamport: self.min_lamport.clone(),
+            min_time: self.min_time.clone(),
+            max_time: self.max_time.clone(),
+            tags: self.tags.clone(),
+        }
+        .encode(c, w)
+    }
+}
+
+impl Decode<DagCborCodec> for KeySeq {
+    fn decode<R: Read + Seek>(c: DagCborCodec, r: &mut R) -> anyhow::Result<Self> {
+        KeySeqIo::decode(c, r)?.try_into()
+    }
+}
+
 impl KeySeq {
     fn time(&self, i: usize) -> Option<TimeData> {
         if i < self.min_lamport.len() {
-- 
2.43.0


From 16cdafaf260f2dd5fff95297bc5aa94be89c6e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:23 +0000
Subject: [PATCH 11/22] fix: a query term or tag that does not occur in a node
 no longer disables the whole query

---
 banyan-utils/src/tags.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 0127315..22c80dd 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -203,7 +203,9 @@ impl DnfQuery {
                 .0
                 .iter()
                 .map(|key| {
-                    map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
+                    // tags that do not occur in the sequence make no difference
+                    let known = &key.tags & &keyseq.tags.tags;
+                    map_to_index_set(&keyseq.tags.tags, &known).map(|index_set| TranslatedKey {
                         index_set,
                         time: key.time,
                     })
-- 
2.43.0


From 775c67134505bedd897e37a034e1bdd675812e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:59 +0000
Subject: [PATCH 12/22] fix: reject malformed branches with an error instead of
 panicking or looping

---
 banyan/src/forest/read.rs   | 27 ++++++++------
 banyan/src/forest/stream.rs |  6 ++--
 banyan/src/index.rs         | 72 ++++++++++++++++++++++++++++++++++---
 banyan/src/tree.rs          |  4 ++-
 4 files changed, 89 insertions(+), 20 deletions(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index fef7ed0..56d8e58 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -3,8 +3,8 @@ use super::prom;
 use super::{BranchCache, Config, FilteredChunk, Forest, Secrets, TreeTypes};
 use crate::{
     index::{
-        deserialize_compressed, Branch, BranchIndex, BranchLoader, CompactSeq, Index, Leaf,
-        LeafIndex, LeafLoader, NodeInfo,
+        checked_sum, deserialize_compressed, Branch, BranchIndex, BranchLoader, CompactSeq, Index,
+        Leaf, LeafIndex, LeafLoader, NodeInfo,
     },
     query::Query,
     store::ZstdDagCborSeq,
@@ -388,9 +388,14 @@ where
         let bytes = self.get_block(&link)?;
         let (children, byte_range) = deserialize_compressed::<T>(index_key, nonce::<T>(), &bytes)?;
         let level = children.iter().map(|x| x.level()).max().unwrap() + 1;
-        let count = children.iter().map(|x| x.count()).sum();
-        let value_bytes = children.iter().map(|x| x.value_bytes()).sum();
-        let key_bytes = children.iter().map(|x| x.key_bytes()).sum::<u64>() + (bytes.len() as u64);
+        let count = checked_sum(children.iter().map(|x| x.count()))?;
+        let value_bytes = checked_sum(children.iter().map(|x| x.value_bytes()))?;
+        let key_bytes = checked_sum(
+            children
+                .iter()
+                .map(|x| x.key_bytes())
+                .chain(iter::once(bytes.len() as u64)),
+        )?;
         let summaries = children.iter().map(|x| x.summarize()).collect();
         let result = BranchIndex {
             link: Some(link),
@@ -452,9 +457,10 @@ where
     pub(crate) fn node_info(&self, secrets: &Secrets, index: &Index<T>) -> NodeInfo<T, R> {
         match index {
             Index::Branch(index) => match index.link {
-                Some(link) => {
-                    NodeInfo::Branch(index.clone(), BranchLoader::new(self, secrets, link))
-                }
+                Some(link) => NodeInfo::Branch(
+                    index.clone(),
+                    BranchLoader::new(self, secrets, link).with_index(index.clone()),
+                ),
                 None => NodeInfo::PurgedBranch(index.clone()),
             },
             Index::Leaf(index) => match index.link {
@@ -475,7 +481,7 @@ where
             let bytes = self.get_block(link)?;
             let (children, byte_range) =
                 deserialize_compressed(secrets.index_key(), nonce::<T>(), &bytes)?;
-            Some(Branch::<T>::new(children, byte_range))
+            Some(Branch::<T>::new(children, byte_range).checked(index)?)
         } else {
             None
         });
@@ -683,8 +689,7 @@ where
         } else {
             *level = (*level).min(index.level() as i32 - 1);
             if let Index::Branch(b) = index {
-                if let Some(link) = b.link {
-                    let branch = self.load_branch_from_link(secrets, &link)?;
+                if let Some(branch) = self.load_branch(secrets, b)? {
                     for child in branch.children.iter() {
                         self.roots0(secrets, child, level, res)?;
                     }
diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index f7f22f6..0066c57 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -175,10 +175,8 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                             // update the end offset from the start of what we got. The end of
                             // the range is inclusive, so it must be the offset before the chunk.
                             // At offset 0 there is nothing left, and the stream terminates anyway.
-                            end_offset_ref.fetch_min(
-                                chunk.range.start.saturating_sub(1),
-                                Ordering::SeqCst,
-                            );
+                            end_offset_ref
+                                .fetch_min(chunk.range.start.saturating_sub(1), Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 987eded..8d60523 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -43,7 +43,7 @@ use crate::{
     store::{ReadOnlyStore, ZstdDagCborSeq},
     CipherOffset, Forest, Secrets,
 };
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 use cbor_data::codec::ReadCbor;
 use libipld::{
     cbor::{DagCbor, DagCborCodec},
@@ -292,6 +292,24 @@ impl<T: TreeTypes> Branch<T> {
     pub fn count(&self) -> u64 {
         self.children.len() as u64
     }
+
+    /// checks that the children, which come from an untrusted block, are those the index describes
+    pub(crate) fn checked(self, index: &BranchIndex<T>) -> Result<Self> {
+        ensure!(
+            self.children.len() == index.summaries.len(),
+            "number of children differs from index"
+        );
+        ensure!(
+            self.children.iter().all(|x| x.level() < index.level),
+            "child must be below the level of the branch"
+        );
+        let count = checked_sum(self.children.iter().map(|x| x.count()))?;
+        ensure!(
+            count == index.count,
+            "number of elements differs from index"
+        );
+        Ok(self)
+    }
 }
 
 /// fully in memory representation of a leaf node
@@ -326,6 +344,7 @@ pub struct BranchLoader<T: TreeTypes, R> {
     forest: Forest<T, R>,
     secrets: Secrets,
     link: T::Link,
+    index: Option<Arc<BranchIndex<T>>>,
 }
 
 impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> BranchLoader<T, R> {
@@ -334,16 +353,35 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> BranchLoader<T, R> {
             forest: forest.clone(),
             secrets: secrets.clone(),
             link,
+            index: None,
+        }
+    }
+
+    /// loader that checks that the branch is what the index describes
+    pub(crate) fn with_index(mut self, index: Arc<BranchIndex<T>>) -> Self {
+        self.index = Some(index);
+        self
+    }
+
+    fn checked(&self, branch: Branch<T>) -> anyhow::Result<Branch<T>> {
+        match &self.index {
+            Some(index) => branch.checked(index),
+            None => Ok(branch),
         }
     }
 
     pub fn load_cached(&self) -> anyhow::Result<Branch<T>> {
-        self.forest
-            .load_branch_cached_from_link(&self.secrets, &self.link)
+        self.checked(
+            self.forest
+                .load_branch_cached_from_link(&self.secrets, &self.link)?,
+        )
     }
 
     pub fn load(&self) -> anyhow::Result<Branch<T>> {
-        self.forest.load_branch_from_link(&self.secrets, &self.link)
+        self.checked(
+            self.forest
+                .load_branch_from_link(&self.secrets, &self.link)?,
+        )
     }
 }
 
@@ -446,9 +484,35 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
 ) -> Result<(Vec<Index<T>>, Range<u64>)> {
     let (seq, byte_range) = ZstdDagCborSeq::decrypt(ipld, key, nonce)?;
     let seq = seq.items_ipld::<Index<T>>()?;
+    ensure!(!seq.is_empty(), "branch without children");
+    for index in &seq {
+        match index {
+            Index::Leaf(x) => ensure!(is_valid_seq(&x.keys), "invalid key sequence"),
+            Index::Branch(x) => {
+                ensure!(is_valid_seq(&x.summaries), "invalid summary sequence");
+                ensure!(
+                    x.level > 0 && x.level < i32::MAX as u32,
+                    "invalid branch level"
+                );
+            }
+        }
+    }
     Ok((seq, byte_range))
 }
 
+/// checks the basic guarantees of a [CompactSeq] for a sequence from an untrusted block
+fn is_valid_seq<S: CompactSeq>(seq: &S) -> bool {
+    !seq.is_empty() && seq.get(seq.len() - 1).is_some()
+}
+
+/// sum of values from an untrusted block
+pub(crate) fn checked_sum(values: impl IntoIterator<Item = u64>) -> Result<u64> {
+    values
+        .into_iter()
+        .try_fold(0u64, |a, b| a.checked_add(b))
+        .ok_or_else(|| anyhow!("overflow in index statistics"))
+}
+
 /// Utility method to zip a number of indices with an offset that is increased by each index value
 pub(crate) fn zip_with_offset_ref<
     'a,
diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index ddd1275..193d339 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -262,7 +262,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
     fn left_roots0(&self, secrets: &Secrets, index: &Index<T>) -> Result<Vec<Index<T>>> {
         let mut result = if let Index::Branch(branch) = index {
             if let Some(link) = branch.link {
-                let branch = self.load_branch_cached_from_link(secrets, &link)?;
+                let branch = self
+                    .load_branch_cached_from_link(secrets, &link)?
+                    .checked(branch)?;
                 self.left_roots0(secrets, branch.first_child())?
             } else {
                 Vec::new()
-- 
2.43.0


From d56e3a7fe12ec5e3ccf3eabe80fbacdbb6fc9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:59 +0000
Subject: [PATCH 13/22] fix: a leaf with fewer values than keys is an error
 instead of missing elements

---
 banyan/src/forest/read.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index 56d8e58..b0b6aa2 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -11,7 +11,7 @@ use crate::{
     store::{BanyanValue, ReadOnlyStore},
     util::{nonce, BoolSliceExt, IterExt},
 };
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 use cbor_data::codec::ReadCbor;
 use futures::{prelude::*, stream::BoxStream};
 use smallvec::{smallvec, SmallVec};
@@ -89,6 +89,10 @@ where
                 .map(|(i, _)| range.start + i as u64);
             let keys = index.select_keys(matching);
             let elems: Vec<V> = leaf.as_ref().select(matching)?;
+            ensure!(
+                elems.len() == matching.iter().filter(|m| **m).count(),
+                "number of values differs from number of keys"
+            );
             offsets
                 .zip(keys)
                 .zip(elems)
@@ -542,6 +546,10 @@ where
             NodeInfo::Leaf(index, node) => {
                 let vs = node.load()?.as_ref().items::<V>()?;
                 let ks = index.keys.to_vec();
+                ensure!(
+                    vs.len() == ks.len(),
+                    "number of values differs from number of keys"
+                );
                 for (k, v) in ks.into_iter().zip(vs.into_iter()).skip(offset as usize) {
                     into.push(Some((k, v)));
                 }
-- 
2.43.0


From 55231c5f9f235da40e3b0098e7f89f14e38f5e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:59 +0000
Subject: [PATCH 14/22] fix: running out of key stream offsets is an error
 instead of a panic

---
 banyan/src/store/zstd_dag_cbor_seq.rs | 2 +-
 banyan/src/stream_builder.rs          | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index baaf07d..dc75c07 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -417,7 +417,7 @@ impl ZstdDagCborSeq {
         let Self { mut data, links } = self;
         // encrypt in place with the key and nonce
         let mut chacha20 = XChaCha20::new(key, nonce);
-        let offset = state.reserve(data.len());
+        let offset = state.reserve(data.len())?;
         chacha20.seek(offset);
         chacha20.apply_keystream(&mut data);
         // encode via IpldNode
diff --git a/banyan/src/stream_builder.rs b/banyan/src/stream_builder.rs
index ba5eb84..effbde0 100644
--- a/banyan/src/stream_builder.rs
+++ b/banyan/src/stream_builder.rs
@@ -24,13 +24,13 @@ impl CipherOffset {
         Self { value }
     }
 
-    pub fn reserve(&mut self, n: usize) -> u64 {
+    pub fn reserve(&mut self, n: usize) -> anyhow::Result<u64> {
         let result = self.value;
         self.value = self
             .value
             .checked_add(n as u64)
-            .expect("ran out of offsets");
-        result
+            .ok_or_else(|| anyhow::anyhow!("ran out of offsets"))?;
+        Ok(result)
     }
 
     pub fn current(&self) -> u64 {
-- 
2.43.0


From d2ae985e82390e5f43d8af618134bacf7b1ea532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:41 +0000
Subject: [PATCH 15/22] fix: nested data in a block body is rejected without
 recursion

---
 banyan/src/store/zstd_dag_cbor_seq.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index dc75c07..3ff9771 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -29,11 +29,13 @@ use chacha20::{
     cipher::{NewCipher, StreamCipher, StreamCipherSeek},
     XChaCha20,
 };
+#[cfg(test)]
+use libipld::Ipld;
 use libipld::{
     cbor::DagCborCodec,
     codec::Codec,
     prelude::{Decode, Encode},
-    Cid, DagCbor, Ipld,
+    Cid, DagCbor,
 };
 use std::{
     collections::BTreeSet,
@@ -431,7 +433,7 @@ impl ZstdDagCborSeq {
         key: &chacha20::Key,
         nonce: &chacha20::XNonce,
     ) -> anyhow::Result<(Self, Range<u64>)> {
-        let (offset, links, mut encrypted) = DagCborCodec.decode::<IpldNode>(data)?.into_data()?;
+        let (offset, links, mut encrypted) = DagCborCodec.decode::<IpldNode>(data)?.into_data();
         let mut cipher = XChaCha20::new(key, nonce);
         let end_offset = offset
             .checked_add(encrypted.len() as u64)
@@ -444,20 +446,18 @@ impl ZstdDagCborSeq {
 }
 
 /// utility struct for encoding and decoding
+///
+/// The data must be bytes. Decoding it as an arbitrary ipld item would recurse for nested data.
 #[derive(DagCbor)]
-struct IpldNode(u64, Vec<Cid>, Ipld);
+struct IpldNode(u64, Vec<Cid>, Box<[u8]>);
 
 impl IpldNode {
     fn new(links: Vec<Cid>, data: impl Into<Vec<u8>>, offset: u64) -> Self {
-        Self(offset, links, Ipld::Bytes(data.into()))
+        Self(offset, links, data.into().into())
     }
 
-    fn into_data(self) -> anyhow::Result<(u64, Vec<Cid>, Vec<u8>)> {
-        if let Ipld::Bytes(data) = self.2 {
-            Ok((self.0, self.1, data))
-        } else {
-            Err(anyhow::anyhow!("expected ipld bytes"))
-        }
+    fn into_data(self) -> (u64, Vec<Cid>, Vec<u8>) {
+        (self.0, self.1, self.2.into())
     }
 }
 
-- 
2.43.0


From 846cd1754de490e55f9229ae5454d46c84d839a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 16/22] fix: reject branches that claim fewer elements than
 children

---
 banyan/src/index.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 8d60523..9f1ee53 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -490,6 +490,10 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
             Index::Leaf(x) => ensure!(is_valid_seq(&x.keys), "invalid key sequence"),
             Index::Branch(x) => {
                 ensure!(is_valid_seq(&x.summaries), "invalid summary sequence");
+                ensure!(
+                    x.count >= x.summaries.count(),
+                    "branch must have at least one element per child"
+                );
                 ensure!(
                     x.level > 0 && x.level < i32::MAX as u32,
                     "invalid branch level"
-- 
2.43.0


From 801cb3924bc360002b0e3c32de130b9901354eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 17/22] fix: an error status of the ipfs node is an error of
 block_get and block_put

---
 banyan-utils/src/ipfs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index b875c4e..da86357 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -14,7 +14,8 @@ pub fn block_get(key: &Cid) -> Result<Box<[u8]>> {
         &[("arg", format!("{}", key))],
     )?;
     let client = reqwest::blocking::Client::new();
-    let data: Vec<u8> = client.post(url).send()?.bytes()?.to_vec();
+    let response = client.post(url).send()?.error_for_status()?;
+    let data: Vec<u8> = response.bytes()?.to_vec();
     Ok(data.into())
 }
 
@@ -126,7 +127,8 @@ pub fn block_put(data: &[u8], codec: u64, pin: bool) -> Result<Cid> {
         "file",
         reqwest::blocking::multipart::Part::bytes(data.to_vec()),
     );
-    let res: IpfsBlockPutResponseIo = client.post(url).multipart(form).send()?.json()?;
+    let response = client.post(url).multipart(form).send()?;
+    let res: IpfsBlockPutResponseIo = response.error_for_status()?.json()?;
     let cid = Cid::from_str(&res.key)?;
     Ok(cid)
 }
-- 
2.43.0


From d2d9641ef6ad825bba11e6684c67dbf7fc30c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 18/22] fix: pubsub_pub reports that the ipfs node refused to
 publish

---
 banyan-utils/src/ipfs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index da86357..5481e71 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -104,7 +104,8 @@ pub async fn pubsub_pub(topic: &str, data: &[u8]) -> Result<()> {
         topic, data
     ))?;
     let client = reqwest::Client::new();
-    let _ = client.post(url).send().await?.bytes().await?.to_vec();
+    let response = client.post(url).send().await?.error_for_status()?;
+    let _ = response.bytes().await?.to_vec();
     Ok(())
 }
 
-- 
2.43.0


From 6fe25c3e1a9601615d52918725aecd5119a979bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:54 +0000
Subject: [PATCH 19/22] fix: pubsub_sub copes with events that are not aligned
 with chunks, and with errors

---
 banyan-utils/src/bin/cli.rs |  1 -
 banyan-utils/src/ipfs.rs    | 49 +++++++++++++++++++++++++++++--------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 89dd1fb..61a2b1a 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -503,7 +503,6 @@ async fn main() -> Result<()> {
         Command::RecvStream { topic } => {
             let secrets = Secrets::default();
             let links = pubsub_sub(&topic)?
-                .map_err(anyhow::Error::new)
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
                 .and_then(|data| future::ready(Sha256Digest::from_str(&data)));
             let forest2 = forest.clone();
diff --git a/banyan-utils/src/ipfs.rs b/banyan-utils/src/ipfs.rs
index 5481e71..c9fce5d 100644
--- a/banyan-utils/src/ipfs.rs
+++ b/banyan-utils/src/ipfs.rs
@@ -72,7 +72,27 @@ struct IpfsPubsubEventIo {
     _topic_ids: IgnoredAny,
 }
 
-pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<u8>>>> {
+/// Takes the complete events from the front of the buffer. What remains is the start of an event
+/// that has not been completely received yet.
+fn take_events(buffer: &mut Vec<u8>) -> Vec<Result<Vec<u8>>> {
+    let mut events = Vec::new();
+    let mut iter = serde_json::Deserializer::from_slice(buffer).into_iter::<IpfsPubsubEventIo>();
+    let consumed = loop {
+        match iter.next() {
+            Some(Ok(event)) => events.push(Ok(event.data.0)),
+            Some(Err(cause)) if !cause.is_eof() => {
+                // no way to tell where the next event starts
+                events.push(Err(cause.into()));
+                break buffer.len();
+            }
+            _ => break iter.byte_offset(),
+        }
+    };
+    buffer.drain(..consumed);
+    events
+}
+
+pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = Result<Vec<u8>>>> {
     let url = reqwest::Url::parse_with_params(
         "http://localhost:5001/api/v0/pubsub/sub",
         &[("arg", topic)],
@@ -81,15 +101,24 @@ pub fn pubsub_sub(topic: &str) -> Result<impl Stream<Item = reqwest::Result<Vec<
     let data = client
         .post(url)
         .send()
-        .map(|response| match response {
-            Ok(response) => response
-                .bytes_stream()
-                .map_ok(|bytes| {
-                    let data: IpfsPubsubEventIo = serde_json::from_slice(&bytes).unwrap();
-                    data.data.0
-                })
-                .left_stream(),
-            Err(cause) => futures::stream::once(future::err(cause)).right_stream(),
+        .map(|response| match response.and_then(|r| r.error_for_status()) {
+            Ok(response) => {
+                // the chunks of the response are not necessarily aligned with the events
+                let mut buffer = Vec::new();
+                response
+                    .bytes_stream()
+                    .map(move |chunk| match chunk {
+                        Ok(bytes) => {
+                            buffer.extend_from_slice(&bytes);
+                            take_events(&mut buffer)
+                        }
+                        Err(cause) => vec![Err(cause.into())],
+                    })
+                    .map(stream::iter)
+                    .flatten()
+                    .left_stream()
+            }
+            Err(cause) => stream::once(future::err(cause.into())).right_stream(),
         })
         .flatten_stream();
     Ok(data)
-- 
2.43.0


From bef351df18259617a990d2cf4f5f049be149f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:45 +0000
Subject: [PATCH 20/22] fix: banyan-cli uses the passwords it is given in all
 commands

build, filter, forget, pack and recv-stream ignored --index-pass and
--value-pass, so build wrote data encrypted with the all zero key.
---
 banyan-utils/src/bin/cli.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/banyan-utils/src/bin/cli.rs b/banyan-utils/src/bin/cli.rs
index 61a2b1a..970fdd3 100644
--- a/banyan-utils/src/bin/cli.rs
+++ b/banyan-utils/src/bin/cli.rs
@@ -226,8 +226,8 @@ async fn build_tree(
     count: u64,
     unbalanced: bool,
     print_every: u64,
+    secrets: Secrets,
 ) -> anyhow::Result<StreamBuilder<TT, String>> {
-    let secrets = Secrets::default();
     let config = Config::debug();
     let mut tagger = Tagger::new();
     // function to add some arbitrary tags to test out tag querying and compression
@@ -405,7 +405,16 @@ async fn main() -> Result<()> {
                 "building a tree with {} batches of {} values, unbalanced: {}",
                 batches, count, unbalanced
             );
-            let tree = build_tree(&mut forest, base, batches, count, unbalanced, 1000).await?;
+            let tree = build_tree(
+                &mut forest,
+                base,
+                batches,
+                count,
+                unbalanced,
+                1000,
+                secrets,
+            )
+            .await?;
             forest.dump(&tree.snapshot())?;
         }
         Command::Bench { count } => {
@@ -470,7 +479,6 @@ async fn main() -> Result<()> {
                 .map(|tag| Key::filter_tags(TagSet::single(Tag::from(tag))))
                 .collect::<Vec<_>>();
             let query = DnfQuery(tags).boxed();
-            let secrets = Secrets::default();
             let config = Config::debug();
             let tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -482,7 +490,6 @@ async fn main() -> Result<()> {
             }
         }
         Command::Forget { root, before } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.retain(&mut tree, &OffsetRangeQuery::from(before..))?;
@@ -490,7 +497,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::Pack { root } => {
-            let secrets = Secrets::default();
             let config = Config::debug();
             let mut tree = forest.load_stream_builder::<String>(secrets, config, root)?;
             forest.dump(&tree.snapshot())?;
@@ -501,7 +507,6 @@ async fn main() -> Result<()> {
             println!("{:?}", tree);
         }
         Command::RecvStream { topic } => {
-            let secrets = Secrets::default();
             let links = pubsub_sub(&topic)?
                 .and_then(|data| future::ready(String::from_utf8(data).map_err(anyhow::Error::new)))
                 .and_then(|data| future::ready(Sha256Digest::from_str(&data)));
-- 
2.43.0


From 0e599bf74cc6ed349e145584e74804aa9b1ec3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:28 +0000
Subject: [PATCH 21/22] fix: do not accept a config with a limit of zero
 elements per leaf

---
 banyan/src/forest/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/banyan/src/forest/mod.rs b/banyan/src/forest/mod.rs
index c697611..9f1c3bc 100644
--- a/banyan/src/forest/mod.rs
+++ b/banyan/src/forest/mod.rs
@@ -245,6 +245,7 @@ impl Config {
     pub fn validate(&self) -> anyhow::Result<()> {
         anyhow::ensure!(self.max_summary_branches > 1);
         anyhow::ensure!(self.max_key_branches > 0);
+        anyhow::ensure!(self.max_leaf_count > 0);
         anyhow::ensure!(self.target_leaf_size > 0 && self.target_leaf_size <= 1024 * 1024);
         anyhow::ensure!(self.max_uncompressed_leaf_size <= 16 * 1024 * 1024);
         anyhow::ensure!(self.zstd_level >= 1 && self.zstd_level <= 22);
-- 
2.43.0


From e1b8608f16cecb3801fd192792d8619f15899224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:54 +0000
Subject: [PATCH 22/22] fix: reject branches that are too large to be
 decompressed again

---
 banyan/src/store/mod.rs               | 2 +-
 banyan/src/store/thread_local_zstd.rs | 3 +++
 banyan/src/store/zstd_dag_cbor_seq.rs | 7 ++++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/banyan/src/store/mod.rs b/banyan/src/store/mod.rs
index ae5c4ab..53c2592 100644
--- a/banyan/src/store/mod.rs
+++ b/banyan/src/store/mod.rs
@@ -9,7 +9,7 @@ mod zstd_dag_cbor_seq;
 pub use branch_cache::BranchCache;
 pub use mem_cache::{MemCache, MemWriter};
 pub use mem_store::MemStore;
-pub(crate) use thread_local_zstd::decompress_and_transform;
+pub(crate) use thread_local_zstd::{decompress_and_transform, MAX_UNCOMPRESSED_SIZE};
 pub use zstd_dag_cbor_seq::ZstdDagCborSeq;
 
 use cbor_data::codec::ReadCbor;
diff --git a/banyan/src/store/thread_local_zstd.rs b/banyan/src/store/thread_local_zstd.rs
index 968b1a9..acd9a82 100644
--- a/banyan/src/store/thread_local_zstd.rs
+++ b/banyan/src/store/thread_local_zstd.rs
@@ -8,6 +8,9 @@ const MIN_CAPACITY: usize = 1024 * 1024 * 4;
 /// Max capacity we are going to allocate.
 const MAX_CAPACITY: usize = 1024 * 1024 * 16;
 
+/// Data that is larger than this when uncompressed can not be decompressed anymore
+pub(crate) const MAX_UNCOMPRESSED_SIZE: usize = MAX_CAPACITY;
+
 /// thread-local decompression state
 pub(crate) struct DecompressionState {
     /// reused zstd decompressor
diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index 3ff9771..d9883f8 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -47,7 +47,10 @@ use std::{
     time::Instant,
 };
 
-use crate::{store::decompress_and_transform, stream_builder::CipherOffset};
+use crate::{
+    store::{decompress_and_transform, MAX_UNCOMPRESSED_SIZE},
+    stream_builder::CipherOffset,
+};
 
 #[derive(Clone, PartialEq, Eq)]
 pub struct ZstdDagCborSeq {
@@ -77,6 +80,7 @@ impl ZstdDagCborSeq {
             encoded.clear();
             item.write_cbor(CborBuilder::append_to(&mut encoded));
             size += encoded.len();
+            anyhow::ensure!(size <= MAX_UNCOMPRESSED_SIZE, "sequence too large!");
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
@@ -105,6 +109,7 @@ impl ZstdDagCborSeq {
         for item in iter.into_iter() {
             let encoded = DagCborCodec.encode(item)?;
             size += encoded.len();
+            anyhow::ensure!(size <= MAX_UNCOMPRESSED_SIZE, "sequence too large!");
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
-- 
2.43.0

