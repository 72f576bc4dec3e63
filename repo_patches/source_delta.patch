From ffa25ef91f438fc040e48261222ef68ef042e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 01/15] fix: scan_prefix yields wrong keys when the prefix ends
 at a node boundary

The prefix of the node that was found was part of the scanned prefix already,
and then got appended again by the iterator.
---
 src/node/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index e5cfeb0..8c0cd87 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1994,7 +1994,9 @@ fn scan_prefix<S: BlobStore + Clone>(
     find(&store, tree, prefix, |r| {
         Ok(match r {
             FindResult::Found(tree) => {
-                let prefix = IterKey::new(prefix);
+                // the iterator appends the prefix of the tree itself
+                let n = tree.load_prefix(&store1)?.len();
+                let prefix = IterKey::new(&prefix[..prefix.len() - n]);
                 let tree: TreeNode<S> = tree.to_owned();
                 KeyValueIter::new(TreeNodeIter::from_arc(Arc::new(vec![tree])), store1, prefix)
             }
-- 
2.43.0


From 38de889313380d9e7ac527fa06f6a3317d1c9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 02/15] fix: tree equality confuses no value with the empty
 value

---
 src/node/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 8c0cd87..89053b9 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -669,6 +669,7 @@ pub struct TreeNode<S> {
 impl PartialEq for TreeNode<Detached> {
     fn eq(&self, other: &Self) -> bool {
         self.prefix_ref().slice() == other.prefix_ref().slice()
+            && self.has_value() == other.has_value()
             && self.value_ref().slice() == other.value_ref().slice()
             && self.get_children() == other.get_children()
     }
-- 
2.43.0


From 257e085ecba6d7c44193bcf8af7296754b53c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 03/15] fix: canonicalize leaks empty child arcs and leaves
 leaves non canonical

An in place operation on a leaf left an arc with an empty vec as children, so
the leaf was not a leaf anymore and not equal to the same leaf built in
another way. When the node became empty, the arc was leaked.
---
 src/node/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 89053b9..571224f 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -911,10 +911,12 @@ impl<S: BlobStore> TreeNode<S> {
             std::mem::swap(&mut self.children_hdr, &mut child.children_hdr);
             std::mem::swap(&mut self.children, &mut child.children);
         }
-        if !self.has_value() && self.child_count() == 0 {
-            self.set_prefix_owned(OwnedBlobRef::EMPTY);
-            self.children_hdr = Header::NONE;
-            self.children = ChildrenRef::EMPTY;
+        if self.child_count() == 0 {
+            // no children is always represented as id none. This also drops the empty arc.
+            self.set_children_id(&[]);
+            if !self.has_value() {
+                self.set_prefix_owned(OwnedBlobRef::EMPTY);
+            }
         }
     }
 
-- 
2.43.0


From 7e27b57fd847512c01c25db794f9502bed5641ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 04/15] fix: has_prefix of the empty prefix is true for the
 empty tree

---
 src/node/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 571224f..eb327fb 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -816,6 +816,9 @@ impl<S: BlobStore> TreeNode<S> {
 
     /// True if key is contained in this set
     fn has_prefix(&self, prefix: &[u8], store: &S) -> Result<bool, S::Error> {
+        if self.is_empty() {
+            return Ok(false);
+        }
         // if we find a tree at exactly the location, and it has a value, we have a hit
         find(store, &TreeNodeRef(Ok(self)), prefix, |r| {
             Ok(match r {
-- 
2.43.0


From f796b7e105d38a7d6b66f40865422465a10a48ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 05/15] fix: filter_prefix of the empty tree is an empty tree
 with a prefix

Such a tree claims to have keys with that prefix, and keeps an empty child
when something is inserted.
---
 src/node/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index eb327fb..dab0b8c 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1501,7 +1501,10 @@ fn filter_prefix<S: BlobStore>(
         Ok(match x {
             FindResult::Found(res) => {
                 let mut res = res.to_owned();
-                res.set_prefix_slice(substitution);
+                // an empty tree must not have a prefix
+                if !res.is_empty() {
+                    res.set_prefix_slice(substitution);
+                }
                 res
             }
             FindResult::Prefix { tree, matching } => {
-- 
2.43.0


From 888b9af7f203c77e89a31ac4a43dbe4ef126cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 06/15] fix: retain_prefix_with drops elements that match a
 longer prefix

When the predicate rejects a prefix, longer prefixes must still be considered.
---
 src/node/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index dab0b8c..3f66aba 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -2805,14 +2805,11 @@ where
         }
     } else if n == bp.len() {
         // that is a prefix of self
-        if b.value_opt().is_none() {
+        if b.value_opt().is_none() || !f(&b.value_opt().unwrap())? {
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
             retain_prefix_children_with(ac, ab, bc, bb, f)?;
-        } else if !f(&b.value_opt().unwrap())? {
-            a.set_value_slice(None);
-            a.set_children_arc_opt(None);
         }
     } else if n == ap.len() {
         // self is a prefix of that
-- 
2.43.0


From 5776a382e0e8a38d0c4cdec9814b33544874ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 07/15] fix: bulk operations on attached trees panic with not
 yet implemented

---
 src/node/mod.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 3f66aba..879ff04 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -478,14 +478,19 @@ impl<'a, S: BlobStore> ValueRef<'a, S> {
         }
     }
 
-    fn detached(&self, _store: &S) -> Result<Value, S::Error>
+    fn detached(&self, store: &S) -> Result<Value, S::Error>
     where
         S: BlobStore,
     {
         if !self.is_id() {
             Ok(unsafe { std::mem::transmute(self.to_owned()) })
         } else {
-            todo!()
+            let data = store.read(self.slice())?;
+            Ok(Value {
+                hdr: Header::data(data.len()),
+                data: CompactOwnedBlob::copy_from_slice(&data),
+                p: PhantomData,
+            })
         }
     }
 
@@ -1429,7 +1434,7 @@ impl<'a, S: BlobStore> TreeNodeRef<'a, S> {
     fn clone_shortened(&self, store: &S, n: usize) -> Result<TreeNode<S>, S::Error> {
         match self.dispatch() {
             Ok(owned) => owned.clone_shortened(store, n),
-            Err(_borrowed) => todo!(),
+            Err(borrowed) => borrowed.to_owned().clone_shortened(store, n),
         }
     }
 }
@@ -1865,16 +1870,28 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
     }
 
     #[allow(clippy::wrong_self_convention)]
-    fn to_owned(self) -> Option<Arc<Vec<TreeNode<S>>>> {
+    fn to_owned(mut self) -> Option<Arc<Vec<TreeNode<S>>>> {
         if self.is_empty() {
             None
         } else {
-            todo!()
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.to_owned());
+            }
+            Some(Arc::new(res))
         }
     }
 
-    fn detached(self, _store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
-        Ok(if self.is_empty() { None } else { todo!() })
+    fn detached(mut self, store: &S) -> Result<Option<Arc<Vec<TreeNode<Detached>>>>, S::Error> {
+        Ok(if self.is_empty() {
+            None
+        } else {
+            let mut res = Vec::new();
+            while let Some(x) = self.next() {
+                res.push(x.detached(store)?);
+            }
+            Some(Arc::new(res))
+        })
     }
 
     fn is_empty(&self) -> bool {
-- 
2.43.0


From df18d9e29f486a3b913bf3502c965ec35ac7f8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:48 +0000
Subject: [PATCH 08/15] fix: in place operations corrupt attached trees with
 long prefixes

When merging a node with its only child, a prefix longer than 127 bytes that
was not loaded yet was replaced by its id. Also, an operation that did not have
to load the children panicked in debug builds.
---
 src/node/mod.rs | 60 ++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 879ff04..084fa99 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -899,18 +899,16 @@ impl<S: BlobStore> TreeNode<S> {
         Ok(())
     }
 
-    fn canonicalize(&mut self) {
-        debug_assert!(self.children_hdr.is_data() || self.children_hdr.is_none());
+    fn canonicalize(&mut self, store: &S) -> Result<(), S::Error> {
+        // children that are not loaded can never be empty or have just one element
         let cc = self.child_count();
         if !self.has_value() && cc == 1 {
+            let mut prefix = self.load_prefix(store)?.to_vec();
             let children = self.get_children_mut().expect("children must be loaded");
             let children = Arc::make_mut(children);
             let mut child = children.pop().unwrap();
-            debug_assert!(!self.prefix_ref().is_id(), "prefix must be loaded");
-            debug_assert!(!child.prefix_ref().is_id(), "child prefix must be loaded");
             // combine the prefix again
-            let mut prefix = self.prefix_ref().slice().to_vec();
-            prefix.extend_from_slice(child.prefix_ref().slice());
+            prefix.extend_from_slice(&child.load_prefix(store)?);
             self.set_prefix_slice(&prefix);
             // take value from child
             std::mem::swap(&mut self.value_hdr, &mut child.value_hdr);
@@ -926,6 +924,7 @@ impl<S: BlobStore> TreeNode<S> {
                 self.set_prefix_owned(OwnedBlobRef::EMPTY);
             }
         }
+        Ok(())
     }
 
     fn load_prefix(&self, store: &S) -> Result<Blob<'_>, S::Error> {
@@ -2101,7 +2100,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2181,13 +2180,13 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        outer_combine_children_with(ac, ab, bc, bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is value of a
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        outer_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        outer_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.split(&ab, n)?;
@@ -2195,8 +2194,7 @@ where
         ac.push(c.convert_node_shortened(b, &bb, n)?);
         ac.sort_by_key(|x| x.first_prefix_byte());
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn outer_combine_children_with<'a, A, B, C, F>(
@@ -2307,7 +2305,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2449,27 +2447,26 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         // value is none
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        inner_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of b
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        inner_combine_children_with(ac, ab, bc, bb, c, f)?;
+        inner_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn inner_combine_children_with<'a, A, B, C, F>(
@@ -2573,7 +2570,7 @@ where
     res.set_prefix_slice(&ap[..n]);
     res.set_value(value);
     res.set_children_arc_opt(children);
-    res.canonicalize();
+    res.canonicalize(&Detached).unwrap_safe();
     Ok(res)
 }
 
@@ -2728,23 +2725,22 @@ where
         }
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else if n == ap.len() {
         // a is a prefix of b
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        left_combine_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, c, f)?;
     } else if n == bp.len() {
         // b is a prefix of a
         a.split(&ab, n)?;
         let ac = a.load_children_mut(&ab)?;
         let bc = b.load_children(&bb)?;
-        left_combine_children_with(ac, ab, bc, bb, c, f)?;
+        left_combine_children_with(ac, ab.clone(), bc, bb, c, f)?;
     } else {
         // the two nodes are disjoint
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn left_combine_children_with<'a, A, B, C, F>(
@@ -2818,7 +2814,7 @@ where
             a.set_value_slice(None);
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2826,21 +2822,20 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            retain_prefix_children_with(ac, ab, bc, bb, f)?;
+            retain_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         a.set_value_slice(None);
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        retain_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        retain_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nuke it
         a.set_value_slice(None);
         a.set_children_arc_opt(None);
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn retain_prefix_children_with<'a, A, B, F>(
@@ -2918,7 +2913,7 @@ where
             // recurse
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == bp.len() {
         // that is a prefix of self
@@ -2931,18 +2926,17 @@ where
             a.split(&ab, n)?;
             let ac = a.load_children_mut(&ab)?;
             let bc = b.load_children(&bb)?;
-            remove_prefix_children_with(ac, ab, bc, bb, f)?;
+            remove_prefix_children_with(ac, ab.clone(), bc, bb, f)?;
         }
     } else if n == ap.len() {
         // self is a prefix of that
         let ac = a.load_children_mut(&ab)?;
         let bc = [b.clone_shortened(&bb, n)?];
-        remove_prefix_children_with(ac, ab, TreeNodeIter::from_slice(&bc), bb, f)?;
+        remove_prefix_children_with(ac, ab.clone(), TreeNodeIter::from_slice(&bc), bb, f)?;
     } else {
         // disjoint, nothing to do
     }
-    a.canonicalize();
-    Ok(())
+    a.canonicalize(&ab)
 }
 
 fn remove_prefix_children_with<'a, A, B, F>(
-- 
2.43.0


From 9617e3cb19db9ba02ea852857bb65b2a9c9c718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 09/15] fix: PagedFileStore::sync does not sync the file

Sync is supposed to ensure that all data is persisted.
---
 src/store/paged_file_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 74cf1a9..ddbf787 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -284,6 +284,7 @@ impl BlobStore for PagedFileStore {
     }
 
     fn sync(&self) -> anyhow::Result<()> {
+        self.0.lock().file.sync_all()?;
         Ok(())
     }
 }
-- 
2.43.0


From b7f2c66a2d41604492f9b41b667b160f7e6da5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 10/15] fix: crash while closing a page leaves a last_id that
 is not a block

The padding was committed before the block that comes after it, so after a
crash in between last_id of the reopened store could not be read.
---
 src/store/paged_file_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index ddbf787..7f88979 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -175,8 +175,8 @@ impl Inner {
     fn close_page(&mut self, current_page: u64) -> anyhow::Result<()> {
         // println!("close_page page={} offset={}", current_page, self.file.stream_position()?);
         let start = offset_of_page(current_page, self.page_size);
+        // this is not committed before the next block is written, so that a committed size always is the id of a block
         self.pad_to(start + (self.page_size as u64))?;
-        self.commit()?;
         self.load_page(current_page)?;
         self.recent
             .retain(|offset, _| page(*offset, self.page_size) != current_page);
-- 
2.43.0


From d46734b0368df8005941aef8de47ad4cc951e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 11/15] fix: PagedFileStore panics when reading an invalid id

---
 src/store/paged_file_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/store/paged_file_store.rs b/src/store/paged_file_store.rs
index 7f88979..df5c95c 100644
--- a/src/store/paged_file_store.rs
+++ b/src/store/paged_file_store.rs
@@ -198,6 +198,7 @@ impl Inner {
     }
 
     fn bytes(&mut self, offset: u64) -> anyhow::Result<OwnedBlob> {
+        anyhow::ensure!(offset >= 4 && offset <= self.last_id, "invalid id");
         let last_page = page(self.last_id, self.page_size);
         let page = page(offset - 1, self.page_size);
         let page_offset = offset_within_page(offset, self.page_size);
@@ -274,7 +275,7 @@ impl BlobStore for PagedFileStore {
     type Error = anyhow::Error;
 
     fn read(&self, id: &[u8]) -> anyhow::Result<OwnedBlob> {
-        let offset = u64::from_be_bytes(id.try_into().unwrap());
+        let offset = u64::from_be_bytes(id.try_into()?);
         self.0.lock().bytes(offset)
     }
 
-- 
2.43.0


From c34f08f6d5f67da2437a0f68153ddc8db31b3d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 12/15] fix: malformed nodes cause panics or are silently
 ignored

---
 src/node/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 084fa99..7cf3c5c 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -1305,6 +1305,10 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
     /// Read one borrowd tree node from a buffer, and return the remainder of the buffer
     pub fn read_one(rest: &'a [u8]) -> Option<(Self, &'a [u8])> {
         let prefix_hdr = Header::from(*rest.first()?);
+        // a prefix that is stored indirectly has at least the first byte
+        if prefix_hdr.is_none() {
+            return None;
+        }
         let len = prefix_hdr.len() + 1;
         if rest.len() < len {
             return None;
@@ -1319,6 +1323,10 @@ impl<'a, S: BlobStore> BorrowedTreeNode<'a, S> {
         let (value, rest) = (&rest[0], &rest[len..]);
 
         let children_hdr = Header::from(*rest.first()?);
+        // children are always stored indirectly
+        if children_hdr.is_data() {
+            return None;
+        }
         let len = children_hdr.len() + 1;
         if rest.len() < len {
             return None;
@@ -1859,6 +1867,15 @@ impl<S: BlobStore> BorrowedTreeNodeIter<S> {
             None
         } else {
             let (record_size, data) = (id[0], store.read(&id[1..])?);
+            // make sure that there is at least one node, and that all nodes can be read
+            let mut rest = data.as_ref();
+            loop {
+                match BorrowedTreeNode::<S>::read_one(rest) {
+                    Some((_, r)) if r.is_empty() => break,
+                    Some((_, r)) => rest = r,
+                    None => return Err(anyhow::anyhow!("invalid children block").into()),
+                }
+            }
             Some(Self {
                 data,
                 offset: 0,
-- 
2.43.0


From 835ce19046bcc0d1a7cf98806196fb9490a5be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 13/15] fix: in place operations that fail lose unrelated
 elements

When the store or the combiner fails, remaining children and the value that was
to be updated got dropped. A failed operation now leaves the tree unchanged.
---
 src/node/mod.rs | 107 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 69 insertions(+), 38 deletions(-)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 7cf3c5c..11b0677 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -3513,6 +3513,22 @@ impl<K: AsRef<[u8]>, V: AsRef<[u8]>> FromIterator<(K, V)> for RadixTree {
 }
 
 impl<S: BlobStore + Clone> RadixTree<S> {
+    /// Update the root node in place. If the update fails, the tree is not modified.
+    fn try_update(
+        &mut self,
+        f: impl FnOnce(&mut TreeNode<S>) -> Result<(), S::Error>,
+    ) -> Result<(), S::Error> {
+        if is_no_store::<S>() {
+            // can not fail, so there is no need to keep the current version
+            f(&mut self.node)
+        } else {
+            let mut node = self.node.clone();
+            f(&mut node)?;
+            self.node = node;
+            Ok(())
+        }
+    }
+
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
     fn try_dump(&self) -> Result<(), S::Error> {
         self.node.dump(0, &self.store)
@@ -3651,14 +3667,17 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        outer_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            outer_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3693,14 +3712,17 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        inner_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            inner_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3767,14 +3789,17 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&mut Value<S>, &ValueRef<S2>) -> Result<(), S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        left_combine_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            c,
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            left_combine_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                c,
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3784,13 +3809,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        retain_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            retain_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
@@ -3800,13 +3828,16 @@ impl<S: BlobStore + Clone> RadixTree<S> {
         F: Fn(&ValueRef<S2>) -> Result<bool, S::Error> + Copy,
         S::Error: From<S2::Error> + From<NoError>,
     {
-        remove_prefix_with(
-            &mut self.node,
-            self.store.clone(),
-            &TreeNodeRef::owned(&that.node),
-            that.store.clone(),
-            f,
-        )
+        let store = self.store.clone();
+        self.try_update(|node| {
+            remove_prefix_with(
+                node,
+                store,
+                &TreeNodeRef::owned(&that.node),
+                that.store.clone(),
+                f,
+            )
+        })
     }
 
     #[cfg_attr(feature = "custom-store", visibility::make(pub))]
-- 
2.43.0


From b7d1e3d98033ef61c848c416878c8ebced4b5d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:27 +0000
Subject: [PATCH 14/15] fix: Blob::slice accepts an excluded start of
 usize::MAX without overflow checks

---
 src/store/blob_store.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/blob_store.rs b/src/store/blob_store.rs
index d6f6092..fcd2feb 100644
--- a/src/store/blob_store.rs
+++ b/src/store/blob_store.rs
@@ -129,7 +129,7 @@ impl<'a> Blob<'a> {
 
         let begin = match range.start_bound() {
             Bound::Included(&n) => n,
-            Bound::Excluded(&n) => n + 1,
+            Bound::Excluded(&n) => n.checked_add(1).expect("out of range"),
             Bound::Unbounded => 0,
         };
 
-- 
2.43.0


From c81b8056556367484b0c2acdd5bb13d63a8758ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:19 +0000
Subject: [PATCH 15/15] fix: prefix() of a tree with an indirect prefix can not
 be loaded

---
 src/node/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/mod.rs b/src/node/mod.rs
index 11b0677..95bcaa3 100644
--- a/src/node/mod.rs
+++ b/src/node/mod.rs
@@ -3490,6 +3490,12 @@ impl<S: BlobStore> RadixTree<S> {
 
     pub fn prefix(&self) -> ValueRef<S> {
         let r = self.node.prefix_ref();
+        if r.is_id() {
+            // an indirect prefix is stored as its first byte, followed by the id
+            let slice = r.slice();
+            let r = BorrowedBlobRef::new(Header::id(slice.len() - 1), &slice[0]);
+            return ValueRef(Err(r), PhantomData);
+        }
         ValueRef(Ok(r), PhantomData)
     }
 }
-- 
2.43.0

