From 7f89aaa11aee3fb31a9155a4a76fd1d3fba1c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 01/24] fix: shrinking a file keeps its data below the new size
 and allocates no chunks

---
 stable-fs/src/storage/stable.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..6469984 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -644,9 +644,14 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        // (the chunk is only affected if it exists, and the file ends inside of it)
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -677,9 +682,18 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
-            self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
+        // (the chunk is only affected if it exists, and the file ends inside of it)
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && let Some(ptr) = self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .get(&(node, first_deletable_index - 1))
+        {
+            self.v2_filechunk
+                .v2_chunks
+                .write(ptr + offset, &ZEROES[0..(chunk_size - offset as usize)]);
         }
 
         Ok(())
-- 
2.43.0


From 9649ecccd0c76ddafc8f1beaca57a726561cb3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:32 +0000
Subject: [PATCH 02/24] fix: renumbering never hands out a descriptor twice and
 cannot replace the root

---
 stable-fs/src/runtime/fd.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..86101b9 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -85,6 +85,11 @@ impl FdTable {
         let fd = match self.free_fds.pop() {
             Some(fd) => fd,
             None => {
+                // skip the numbers occupied by renumbered descriptors
+                while self.table.contains_key(&self.next_fd) {
+                    self.next_fd += 1;
+                }
+
                 let fd = self.next_fd;
                 self.next_fd += 1;
                 fd
@@ -103,6 +108,11 @@ impl FdTable {
             return Ok(());
         }
 
+        // the root descriptor is always open and cannot be replaced
+        if dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         // cannot do renumbering between a file and a folder
         let src_entry: Option<&FdEntry> = self.table.get(&src);
         let dst_entry: Option<&FdEntry> = self.table.get(&dst);
@@ -123,10 +133,11 @@ impl FdTable {
         let old_entry = self.close(src).ok_or(Error::BadFileDescriptor)?;
 
         // quietly close the destination file descriptor
-        if let Some(_old_dst_entry) = self.close(dst) {
-            // dst should not be reused by anyone else, so we must undo the fd marked for reusal
-            self.free_fds.retain(|value| *value != dst);
-        }
+        let _old_dst_entry = self.close(dst);
+
+        // dst should not be reused by anyone else, so we must undo the fd marked for reusal
+        // (it could also have been marked for reusal before, if it was not open)
+        self.free_fds.retain(|value| *value != dst);
 
         self.insert(dst, old_entry);
 
-- 
2.43.0


From d6aa1a6779346d3b98659735907514810d9d9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 03/24] fix: seeking far out of range is refused instead of
 overflowing

---
 stable-fs/src/runtime/file.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..464c4ef 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -49,26 +49,18 @@ impl File {
                 }
                 delta as FileSize
             }
-            Whence::CUR => {
-                let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
-                } else {
-                    0
-                };
-                let fwd = if delta >= 0 { delta as FileSize } else { 0 };
-
-                if self.cursor < back {
-                    // seeking before zero position
-                    return Err(Error::InvalidArgument);
-                }
-                self.cursor + fwd - back
-            }
+            // seeking before zero or beyond the 64-bit range is not possible
+            Whence::CUR => self
+                .cursor
+                .checked_add_signed(delta)
+                .ok_or(Error::InvalidArgument)?,
             Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
-                if back > size {
+                if delta > 0 {
                     return Err(Error::InvalidSeek);
                 }
-                size - back
+
+                size.checked_sub(delta.unsigned_abs())
+                    .ok_or(Error::InvalidSeek)?
             }
         };
         self.cursor = position;
-- 
2.43.0


From 263e5bc19f1a752dfaa557f9bfc7b6a10a80bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 04/24] fix: no file can become larger than the maximum
 supported size

---
 stable-fs/src/storage/stable.rs    | 19 ++++++++++++-------
 stable-fs/src/storage/transient.rs | 20 +++++++++++++-------
 2 files changed, 25 insertions(+), 14 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 6469984..ec68b2e 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -614,6 +614,11 @@ impl<M: Memory> StableStorage<M> {
             return Err(Error::FileTooLarge);
         }
 
+        // a file cannot grow above the maximum supported size
+        if new_meta.size > MAX_FILE_SIZE && old_meta.is_none_or(|old| new_meta.size > old.size) {
+            return Err(Error::FileTooLarge);
+        }
+
         Ok(())
     }
 
@@ -921,19 +926,20 @@ impl<M: Memory> Storage for StableStorage<M> {
             return Ok(0);
         }
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let max_size = metadata
+            .maximum_size_allowed
+            .map_or(MAX_FILE_SIZE, |limit| limit.min(MAX_FILE_SIZE));
 
-        if offset + buf.len() as FileSize > max_size {
-            return Err(Error::FileTooLarge);
-        }
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .filter(|end| *end <= max_size)
+            .ok_or(Error::FileTooLarge)?;
 
         let written_size = if let Some(memory) = self.get_mounted_memory(node) {
             self.write_mounted(memory, offset, buf);
 
             buf.len() as FileSize
         } else {
-            let end = offset + buf.len() as FileSize;
-
             let use_v2 = self.use_v2(&metadata, node);
 
             if use_v2 {
@@ -958,7 +964,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         };
 
-        let end = offset + buf.len() as FileSize;
         if end > metadata.size {
             metadata.size = end;
             self.put_metadata(node, &metadata)?;
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..b1cf0f4 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -18,7 +18,7 @@ use crate::{
 
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
-    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX, MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -111,6 +111,11 @@ impl TransientStorage {
             return Err(Error::FileTooLarge);
         }
 
+        // a file cannot grow above the maximum supported size
+        if new_meta.size > MAX_FILE_SIZE && old_meta.is_none_or(|old| new_meta.size > old.size) {
+            return Err(Error::FileTooLarge);
+        }
+
         if let Some(old_meta) = old_meta
             && old_meta.node != new_meta.node
         {
@@ -456,13 +461,14 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let max_size = metadata
+            .maximum_size_allowed
+            .map_or(MAX_FILE_SIZE, |limit| limit.min(MAX_FILE_SIZE));
 
-        if let Some(max_size) = metadata.maximum_size_allowed
-            && end > max_size
-        {
-            return Err(Error::FileTooLarge);
-        }
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .filter(|end| *end <= max_size)
+            .ok_or(Error::FileTooLarge)?;
 
         let chunk_infos = get_chunk_infos(offset, end, FILE_CHUNK_SIZE_V1);
         let mut written_size = 0;
-- 
2.43.0


From 0c13977f4cd18af253d2b2eead157abc92f2e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 05/24] fix: access at the very end of the largest supported
 file does not panic

---
 stable-fs/src/storage/chunk_iterator.rs | 7 +++++--
 stable-fs/src/storage/ptr_cache.rs      | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..0db0edb 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -66,8 +66,11 @@ impl<M: Memory> Iterator for ChunkV2Iterator<'_, M> {
             self.v2_chunk_ptr,
         );
 
-        //
-        let found: CachedChunkPtr = self.ptr_cache.get((self.node, self.cur_index)).unwrap();
+        // there are no chunks (and no cached pointers) above the maximum chunk index
+        let found: CachedChunkPtr = self
+            .ptr_cache
+            .get((self.node, self.cur_index))
+            .unwrap_or(CachedChunkPtr::ChunkMissing);
 
         let res = Some(((self.node, self.cur_index), found));
 
diff --git a/stable-fs/src/storage/ptr_cache.rs b/stable-fs/src/storage/ptr_cache.rs
index 87660d8..f768e72 100644
--- a/stable-fs/src/storage/ptr_cache.rs
+++ b/stable-fs/src/storage/ptr_cache.rs
@@ -48,8 +48,8 @@ impl PtrCache {
         to_index: FileChunkIndex,
         v2_chunk_ptr: &BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) {
-        let to_index = to_index.min(from_index + MAX_CACHE_CHUNKS);
-        let to_index = to_index.max(from_index + MIN_CACHE_CHUNKS);
+        let to_index = to_index.min(from_index.saturating_add(MAX_CACHE_CHUNKS));
+        let to_index = to_index.max(from_index.saturating_add(MIN_CACHE_CHUNKS));
         let to_index = to_index.min(MAX_FILE_CHUNK_COUNT);
 
         if from_index >= to_index {
-- 
2.43.0


From 9f976aa5fd0ce03cc3084bfbef5241148db83150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 06/24] fix: shrinking a transient file discards the data above
 the new size

---
 stable-fs/src/storage/transient.rs | 76 ++++++++++++++++--------------
 1 file changed, 41 insertions(+), 35 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index b1cf0f4..ec15412 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -11,7 +11,7 @@ use crate::{
         Storage,
         types::{
             DirEntry, DirEntryIndex, FileChunk, FileChunkIndex, FileName, FileSize, FileType,
-            Metadata, MountedFileSizePolicy, Node, Times, ZEROES,
+            Metadata, MountedFileSizePolicy, Node, Times,
         },
     },
 };
@@ -101,6 +101,30 @@ impl TransientStorage {
         }
     }
 
+    // Delete the file data above the given size.
+    fn truncate_chunks(&mut self, node: Node, new_size: FileSize) {
+        let chunk_size = FILE_CHUNK_SIZE_V1;
+
+        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
+
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
+
+        let chunks: Vec<_> = self.filechunk.range(range).map(|(k, _v)| *k).collect();
+
+        for key in chunks {
+            self.filechunk.remove(&key);
+        }
+
+        // fill with zeros the last chunk memory above the file size
+        let offset = (new_size % chunk_size as FileSize) as usize;
+
+        if offset > 0
+            && let Some(chunk) = self.filechunk.get_mut(&(node, first_deletable_index - 1))
+        {
+            chunk.bytes[offset..].fill(0);
+        }
+    }
+
     fn validate_metadata_update(
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
@@ -161,20 +185,27 @@ impl Storage for TransientStorage {
 
     // Update the metadata associated with the node.
     fn put_metadata(&mut self, node: Node, metadata: &Metadata) -> Result<(), Error> {
-        let meta_storage = if self.is_mounted(node) {
+        let is_mounted = self.is_mounted(node);
+
+        let meta_storage = if is_mounted {
             &mut self.mounted_meta
         } else {
             &mut self.metadata
         };
 
-        if let Some(existing) = meta_storage.get(&node) {
-            Self::validate_metadata_update(Some(existing), metadata)?;
-        } else {
-            Self::validate_metadata_update(None, metadata)?;
-        }
+        let old_meta = meta_storage.get(&node);
+
+        Self::validate_metadata_update(old_meta, metadata)?;
+
+        let is_shrinking = old_meta.is_some_and(|old| metadata.size < old.size);
 
         meta_storage.insert(node, metadata.clone());
 
+        // if the size was reduced, we need to delete the file chunks above the file size
+        if is_shrinking && !is_mounted {
+            self.truncate_chunks(node, metadata.size);
+        }
+
         Ok(())
     }
 
@@ -285,36 +316,11 @@ impl Storage for TransientStorage {
     }
 
     fn resize_file(&mut self, node: Node, new_size: FileSize) -> Result<(), Error> {
-        let chunk_size = FILE_CHUNK_SIZE_V1;
-
-        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
-
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
-
-        // delete v1 chunks
-        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
-        for (k, _v) in self.filechunk.range(range) {
-            chunks.push((k.0, k.1));
-        }
+        let mut meta = self.get_metadata(node)?;
 
-        for (nd, idx) in chunks.into_iter() {
-            assert!(nd == node);
-            self.filechunk.remove(&(node, idx));
-        }
-
-        // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        meta.size = new_size;
 
-            self.write_filechunk(
-                node,
-                first_deletable_index - 1,
-                offset,
-                &ZEROES[0..(chunk_size - offset as usize)],
-            );
-        }
-
-        Ok(())
+        self.put_metadata(node, &meta)
     }
 
     fn rm_file(&mut self, node: Node) -> Result<(), Error> {
-- 
2.43.0


From 621252c2bc3fe2877409ee7711d0389c796a561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 07/24] fix: the type of a transient file cannot be changed
 through its metadata

---
 stable-fs/src/storage/transient.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index ec15412..fb9926f 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -146,6 +146,13 @@ impl TransientStorage {
             return Err(Error::InvalidArgument);
         }
 
+        // do not allow changing file type
+        if let Some(old_meta) = old_meta
+            && old_meta.file_type != new_meta.file_type
+        {
+            return Err(Error::FunctionNotSupported);
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From 4549dbbb0061a2c8b1cceac85ab5a26226784151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 08/24] fix: the cursor of a file opened for append and
 truncated starts at the new end

---
 stable-fs/src/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..1a38a95 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -641,10 +641,11 @@ impl FileSystem {
                     return Err(Error::OperationNotPermitted);
                 }
 
-                let file = File::new(node, stat, self.storage.as_mut())?;
+                let mut file = File::new(node, stat, self.storage.as_mut())?;
 
                 if flags.contains(OpenFlags::TRUNCATE) {
                     file.truncate(self.storage.as_mut())?;
+                    file.cursor = 0;
                 }
 
                 let fd = self.fd_table.open(FdEntry::File(file));
-- 
2.43.0


From c07ea197cd20197b48dd26573beba87678903ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 09/24] fix: a too long name in a path is refused before any
 folder is created

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..895aa46 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -241,6 +241,11 @@ pub fn create_path(
 ) -> Result<(Node, String), Error> {
     let (parts, _must_be_dir) = get_path_parts(path)?;
 
+    // check all names before creating anything
+    for part in &parts {
+        FileName::new(part.as_bytes())?;
+    }
+
     let mut parent_node = parent_node;
     let mut cur_node = parent_node;
 
-- 
2.43.0


From 35fc12ce3fef04690bb9bebec079ebbfd36c381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:21 +0000
Subject: [PATCH 10/24] fix: a refused hard link to a folder changes nothing

---
 stable-fs/src/runtime/structure_helpers.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 895aa46..a97c38f 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -122,6 +122,11 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
@@ -161,11 +166,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From e0227d809736ca6a1e7cd966f0c7b0137b70b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 11/24] fix: renaming or linking an object onto itself does not
 remove it

---
 stable-fs/src/fs.rs                        | 19 +++++++++++++++++++
 stable-fs/src/runtime/structure_helpers.rs |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 1a38a95..433cfb7 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -872,6 +872,25 @@ impl FileSystem {
         let src_dir = self.get_dir(old_fd)?;
         let dst_dir = self.get_dir(new_fd)?;
 
+        // renaming an object onto itself changes nothing
+        let src_node = find_node(
+            src_dir.node,
+            old_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        )?;
+
+        let dst_node = find_node(
+            dst_dir.node,
+            new_path,
+            &mut self.names_cache,
+            self.storage.as_ref(),
+        );
+
+        if dst_node == Ok(src_node) && !self.storage.is_mounted(src_node) {
+            return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index a97c38f..bcdb010 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -130,6 +130,11 @@ pub fn create_hard_link(
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
         Ok(dst_node) => {
+            // both names already denote the same file
+            if dst_node == src_node {
+                return Err(Error::FileExists);
+            }
+
             let dst_meta = storage.get_metadata(dst_node)?;
 
             if dst_meta.file_type != metadata.file_type {
-- 
2.43.0


From 7f9f69b9d7541c08c23ea6e177e4345147ef79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:22 +0000
Subject: [PATCH 12/24] fix: the storage of an overwritten rename or link
 target is released

---
 stable-fs/src/runtime/structure_helpers.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index bcdb010..8bc2972 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -153,7 +153,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (dst_node, dst_meta) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -162,6 +162,10 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            if dst_meta.link_count == 0 {
+                storage.rm_file(dst_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
-- 
2.43.0


From 4b76cf358636e33caa2a9ba96fda22600b8a6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 13/24] fix: a refused rename of a mounted file leaves no
 additional link behind

---
 stable-fs/src/fs.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 433cfb7..15f2d00 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -872,7 +872,6 @@ impl FileSystem {
         let src_dir = self.get_dir(old_fd)?;
         let dst_dir = self.get_dir(new_fd)?;
 
-        // renaming an object onto itself changes nothing
         let src_node = find_node(
             src_dir.node,
             old_path,
@@ -880,6 +879,13 @@ impl FileSystem {
             self.storage.as_ref(),
         )?;
 
+        // a mounted file cannot be renamed
+        if self.storage.is_mounted(src_node) {
+            return Err(Error::TextFileBusy);
+        }
+
+        // renaming an object onto itself changes nothing
+
         let dst_node = find_node(
             dst_dir.node,
             new_path,
@@ -887,7 +893,7 @@ impl FileSystem {
             self.storage.as_ref(),
         );
 
-        if dst_node == Ok(src_node) && !self.storage.is_mounted(src_node) {
+        if dst_node == Ok(src_node) {
             return self.open_internal(src_node, FdStat::default(), OpenFlags::empty());
         }
 
-- 
2.43.0


From ac9824b0b3d61c7d8ec1e1fb821ccf8b3a17bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 14/24] fix: a folder cannot be renamed into its own subfolder

---
 stable-fs/src/fs.rs                        | 13 ++++-
 stable-fs/src/runtime/structure_helpers.rs | 63 ++++++++++++++++++++++
 2 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 15f2d00..a590ed8 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -7,7 +7,9 @@ use crate::{
         dir::Dir,
         fd::{FdEntry, FdTable, STDERR_FD},
         file::File,
-        structure_helpers::{create_hard_link, find_node, rm_dir_entry},
+        structure_helpers::{
+            check_not_moving_into_itself, create_hard_link, find_node, rm_dir_entry,
+        },
         types::{RIGHTS_FD_READ, RIGHTS_FD_WRITE},
     },
     storage::{
@@ -884,6 +886,15 @@ impl FileSystem {
             return Err(Error::TextFileBusy);
         }
 
+        // a folder cannot be moved into itself
+        check_not_moving_into_itself(
+            src_node,
+            old_path,
+            dst_dir.node,
+            new_path,
+            self.storage.as_ref(),
+        )?;
+
         // renaming an object onto itself changes nothing
 
         let dst_node = find_node(
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 8bc2972..9f09fe0 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,6 +106,69 @@ pub fn find_node(
     }
 }
 
+// Check that the renaming would not move a folder into itself or into one of its own subfolders.
+// src_node        the node being renamed
+// src_path        its current path
+// dst_dir_node    the folder where the new path starts
+// dst_path        the new path
+pub fn check_not_moving_into_itself(
+    src_node: Node,
+    src_path: &str,
+    dst_dir_node: Node,
+    dst_path: &str,
+    storage: &dyn Storage,
+) -> Result<(), Error> {
+    // the folder where the path starts has no name to be changed
+    if get_path_parts(src_path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
+    if storage.get_metadata(src_node)?.file_type != FileType::Directory {
+        return Ok(());
+    }
+
+    // the new parent folder is inside of the moved folder, if the new path goes through it ...
+    let (parts, _must_be_dir) = get_path_parts(dst_path)?;
+
+    let mut cur_node = dst_dir_node;
+
+    for part in parts {
+        if cur_node == src_node {
+            return Err(Error::InvalidArgument);
+        }
+
+        match find_entry_index(cur_node, part.as_bytes(), storage) {
+            Ok(index) => cur_node = storage.get_direntry(cur_node, index)?.node,
+            Err(Error::NoSuchFileOrDirectory) => break,
+            Err(err) => return Err(err),
+        }
+    }
+
+    // ... or if it starts in one of its subfolders
+    if dst_dir_node != storage.root_node() {
+        let mut folders = vec![src_node];
+        let mut found = false;
+
+        while let Some(folder) = folders.pop() {
+            storage.with_direntries(folder, Some(0), &mut |_index, entry| {
+                if entry.entry_type != Some(FileType::RegularFile) {
+                    folders.push(entry.node);
+                }
+
+                found |= entry.node == dst_dir_node;
+
+                !found
+            });
+
+            if found {
+                return Err(Error::InvalidArgument);
+            }
+        }
+    }
+
+    Ok(())
+}
+
 // Create a hard link to an existing node
 #[allow(clippy::too_many_arguments)]
 pub fn create_hard_link(
-- 
2.43.0


From 0b16a326742333a0fb69687c08d642743a5f9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 15/24] fix: a refused mount leaves the file unmounted

---
 stable-fs/src/storage/stable.rs    | 8 ++++++--
 stable-fs/src/storage/transient.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index ec68b2e..352583a 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1031,9 +1031,13 @@ impl<M: Memory> Storage for StableStorage<M> {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index fb9926f..d7c8b3f 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -376,9 +376,13 @@ impl Storage for TransientStorage {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
-- 
2.43.0


From 35f778d349a83948a17e1b68ce02c6df9e6931b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 16/24] fix: a refused store of a mounted memory changes
 nothing

---
 stable-fs/src/storage/stable.rs    | 9 +++++++++
 stable-fs/src/storage/transient.rs | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 352583a..141a045 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1098,6 +1098,15 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // do not start writing if the host file cannot accept the whole content
+        if let Some(max_size) = self.get_metadata(node)?.maximum_size_allowed
+            && file_size > max_size
+        {
+            self.active_mounts.insert(node, memory);
+
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index d7c8b3f..0abd3c3 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -443,6 +443,15 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // do not start writing if the host file cannot accept the whole content
+        if let Some(max_size) = self.get_metadata(node)?.maximum_size_allowed
+            && file_size > max_size
+        {
+            self.active_mounts.insert(node, memory);
+
+            return Err(Error::FileTooLarge);
+        }
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
-- 
2.43.0


From 4168634fbdf541d3c28f446e0471923a08ab1112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 17/24] fix: the host file and its mounted view always agree on
 the number of links

---
 stable-fs/src/storage/stable.rs    | 25 +++++++++++++++++++++++++
 stable-fs/src/storage/transient.rs |  9 +++++++++
 2 files changed, 34 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 141a045..29351c5 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -768,6 +768,27 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         }
 
+        // the number of links is common for the mounted and the host file
+        if is_mounted
+            && let Some((mut host_meta, host_ptr)) = self.meta_provider.get_metadata(
+                node,
+                false,
+                &self.v2_filechunk.v2_chunk_ptr,
+                &self.v2_filechunk.v2_chunks,
+            )
+            && host_meta.link_count != metadata.link_count
+        {
+            host_meta.link_count = metadata.link_count;
+
+            self.meta_provider.put_metadata(
+                node,
+                false,
+                &host_meta,
+                host_ptr,
+                &mut self.v2_filechunk,
+            );
+        }
+
         self.meta_provider.put_metadata(
             node,
             is_mounted,
@@ -1012,6 +1033,7 @@ impl<M: Memory> Storage for StableStorage<M> {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -1030,6 +1052,9 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         file_meta.size = new_size;
 
+        // names could have been added or removed since the previous mount
+        file_meta.link_count = link_count;
+
         // update mounted metadata
         let result = self.put_metadata(node, &file_meta);
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 0abd3c3..273dba4 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -213,6 +213,11 @@ impl Storage for TransientStorage {
             self.truncate_chunks(node, metadata.size);
         }
 
+        // the number of links is common for the mounted and the host file
+        if is_mounted && let Some(host_meta) = self.metadata.get_mut(&node) {
+            host_meta.link_count = metadata.link_count;
+        }
+
         Ok(())
     }
 
@@ -357,6 +362,7 @@ impl Storage for TransientStorage {
         // do extra meta preparation
         // get the file metadata (we are not mounted at this point)
         let mut file_meta = self.get_metadata(node)?;
+        let link_count = file_meta.link_count;
 
         let memory_size = memory.size();
 
@@ -375,6 +381,9 @@ impl Storage for TransientStorage {
 
         file_meta.size = new_size;
 
+        // names could have been added or removed since the previous mount
+        file_meta.link_count = link_count;
+
         // update mounted metadata
         let result = self.put_metadata(node, &file_meta);
 
-- 
2.43.0


From 9f8dbdda0a9580728eb1618001af3f27d6556081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:28 +0000
Subject: [PATCH 18/24] fix: directory iteration can be resumed from the dot
 entries

---
 stable-fs/src/storage/stable.rs    | 13 +++++++++++++
 stable-fs/src/storage/transient.rs | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 29351c5..2749c37 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -871,8 +871,21 @@ impl<M: Memory> Storage for StableStorage<M> {
             return;
         }
 
+        // continue with the regular entries after the dots
+        let initial_index = if initial_index == DUMMY_DOT_ENTRY_INDEX
+            || initial_index == DUMMY_DOT_DOT_ENTRY_INDEX
+        {
+            0
+        } else {
+            initial_index
+        };
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for en in self
             .direntry
             .range((node, initial_index)..(node, max_index))
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 273dba4..09c2b6f 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -605,8 +605,21 @@ impl Storage for TransientStorage {
             return;
         }
 
+        // continue with the regular entries after the dots
+        let initial_index = if initial_index == DUMMY_DOT_ENTRY_INDEX
+            || initial_index == DUMMY_DOT_DOT_ENTRY_INDEX
+        {
+            0
+        } else {
+            initial_index
+        };
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for ((_node, index), entry) in self
             .direntry
             .range((node, initial_index)..(node, max_index))
-- 
2.43.0


From cd3490e99a4cb248158fbd68e54acf4f805a927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 19/24] fix: a refused mount does not leave a new empty file
 behind

---
 stable-fs/src/fs.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index a590ed8..f6a9369 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -14,7 +14,9 @@ use crate::{
     },
     storage::{
         Storage,
-        types::{DirEntry, DirEntryIndex, FileType, Metadata, MountedFileSizePolicy, Node},
+        types::{
+            DirEntry, DirEntryIndex, FileType, MAX_FILE_SIZE, Metadata, MountedFileSizePolicy, Node,
+        },
     },
 };
 
@@ -191,6 +193,13 @@ impl FileSystem {
     ) -> Result<(), Error> {
         let filename = filename.strip_prefix('/').unwrap_or(filename);
 
+        // do not create a new file if its mount is going to be refused
+        if policy.get_mounted_file_size(None, memory.size()) > MAX_FILE_SIZE
+            && self.open_metadata(self.root_fd, filename) == Err(Error::NoSuchFileOrDirectory)
+        {
+            return Err(Error::FileTooLarge);
+        }
+
         // create a file for the mount
         let fd = self.open(
             self.root_fd,
-- 
2.43.0


From e2a0175e2e5c88b9cf98ef24b61447cb2caabe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 20/24] fix: reading with a large buffer near the maximum file
 size returns the data

---
 stable-fs/src/storage/stable.rs    | 4 ++--
 stable-fs/src/storage/transient.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 2749c37..3ec187c 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -436,8 +436,8 @@ impl<M: Memory> StableStorage<M> {
         buf: &mut [u8],
     ) -> Result<FileSize, Error> {
         let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
-        let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-            as FileChunkIndex;
+        let end = (offset + buf.len() as FileSize).min(file_size);
+        let end_index = (end / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
         let mut chunk_offset = offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 09c2b6f..1999fed 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -264,8 +264,8 @@ impl Storage for TransientStorage {
         } else {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
 
-            let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-                as FileChunkIndex;
+            let end = (offset + buf.len() as FileSize).min(file_size);
+            let end_index = (end / FILE_CHUNK_SIZE_V1 as FileSize + 1) as FileChunkIndex;
 
             let mut chunk_offset =
                 offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
-- 
2.43.0


From 1592fad5b37701395d184395302c0674402d14c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 21/24] fix: an empty buffer of a vectored call may have a null
 address

---
 stable-fs/src/fs.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index f6a9369..00555ab 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -339,6 +339,11 @@ impl FileSystem {
 
         let mut read_size = 0;
         for buf in dst {
+            // an empty buffer does not need to have a valid address
+            if buf.len == 0 {
+                continue;
+            }
+
             let buf = unsafe { std::slice::from_raw_parts_mut(buf.buf, buf.len) };
             let size = file.read_with_cursor(buf, self.storage.as_mut())?;
             read_size += size;
@@ -363,6 +368,11 @@ impl FileSystem {
         let mut read_size = 0;
 
         for buf in dst {
+            // an empty buffer does not need to have a valid address
+            if buf.len == 0 {
+                continue;
+            }
+
             let rbuf = unsafe { std::slice::from_raw_parts_mut(buf.buf, buf.len) };
 
             let size = file.read_with_offset(read_size + offset, rbuf, self.storage.as_mut())?;
@@ -403,6 +413,11 @@ impl FileSystem {
 
         let mut written_size = 0;
         for buf in src {
+            // an empty buffer does not need to have a valid address
+            if buf.len == 0 {
+                continue;
+            }
+
             let buf = unsafe { std::slice::from_raw_parts(buf.buf, buf.len) };
 
             let size = file.write_with_offset(written_size + offset, buf, self.storage.as_mut())?;
@@ -441,6 +456,11 @@ impl FileSystem {
 
         let mut written_size = 0;
         for buf in src {
+            // an empty buffer does not need to have a valid address
+            if buf.len == 0 {
+                continue;
+            }
+
             let buf = unsafe { std::slice::from_raw_parts(buf.buf, buf.len) };
 
             let size = file.write_with_offset(written_size + offset, buf, self.storage.as_mut())?;
-- 
2.43.0


From bbb24e9f4968088dc2eb59d0d39b3ff1bdb4eb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:39 +0000
Subject: [PATCH 22/24] fix: reading a mounted file does not grow the memory

---
 stable-fs/src/runtime/structure_helpers.rs | 16 ++++++++++++++++
 stable-fs/src/storage/stable.rs            |  7 ++-----
 stable-fs/src/storage/transient.rs         |  7 ++-----
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 9f09fe0..b4aa410 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -539,6 +539,22 @@ pub fn grow_memory(memory: &dyn Memory, max_address: FileSize) {
     }
 }
 
+// Read from the memory without growing it, everything above the memory size is read as zeroes.
+#[inline]
+pub fn read_memory(memory: &dyn Memory, offset: FileSize, buf: &mut [u8]) {
+    let available = memory
+        .size()
+        .saturating_mul(WASM_PAGE_SIZE_IN_BYTES)
+        .saturating_sub(offset)
+        .min(buf.len() as FileSize) as usize;
+
+    if available > 0 {
+        memory.read(offset, &mut buf[..available]);
+    }
+
+    buf[available..].fill(0);
+}
+
 #[inline]
 pub fn read_obj<T: Sized>(memory: &dyn Memory, address: u64, obj: &mut T) {
     let obj_size = std::mem::size_of::<T>();
diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 3ec187c..39c0acf 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -15,7 +15,7 @@ use crate::{
 use crate::{
     error::Error,
     runtime::{
-        structure_helpers::{get_chunk_infos, grow_memory},
+        structure_helpers::{get_chunk_infos, grow_memory, read_memory},
         types::ChunkSize,
         types::ChunkType,
     },
@@ -933,10 +933,7 @@ impl<M: Memory> Storage for StableStorage<M> {
             let remainder = file_size - offset;
             let to_read = remainder.min(buf.len() as FileSize);
 
-            // grow memory also for reading
-            grow_memory(memory.as_ref(), offset + to_read);
-
-            memory.read(offset, &mut buf[..to_read as usize]);
+            read_memory(memory.as_ref(), offset, &mut buf[..to_read as usize]);
             to_read
         } else {
             let use_v2 = self.use_v2(&metadata, node);
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 1999fed..208a9e2 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -6,7 +6,7 @@ use ic_stable_structures::Memory;
 use crate::{
     error::Error,
     fs::{ChunkSize, ChunkType},
-    runtime::structure_helpers::{get_chunk_infos, grow_memory},
+    runtime::structure_helpers::{get_chunk_infos, grow_memory, read_memory},
     storage::{
         Storage,
         types::{
@@ -256,10 +256,7 @@ impl Storage for TransientStorage {
             let remainder = file_size - offset;
             let to_read = remainder.min(buf.len() as FileSize);
 
-            // grow memory also for reading
-            grow_memory(memory.as_ref(), offset + to_read);
-
-            memory.read(offset, &mut buf[..to_read as usize]);
+            read_memory(memory.as_ref(), offset, &mut buf[..to_read as usize]);
             to_read
         } else {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
-- 
2.43.0


From 4d5b983a9d53a4eed8d54f6cc6dab797f059f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 23/24] fix: recursive removal of a deep tree does not overflow
 the stack

---
 stable-fs/src/fs.rs | 68 +++++++++++++++++++++++++++++++--------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index 00555ab..d1d5887 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -825,37 +825,63 @@ impl FileSystem {
         //    the path is interpreted as a directory (or fail if it doesn't exist).
         let dir_fd = self.open(parent, path, FdStat::default(), OpenFlags::DIRECTORY, 0)?;
 
-        let result = (|| {
-            // Find all directory children
-            let children = self.list_dir_internal(dir_fd, None)?;
+        // Find all directory children
+        let children = self.list_dir_internal(dir_fd, None)?.into_iter();
+
+        // The chain of nested folders being removed. There is no recursion here, hence
+        // the nesting depth is not limited by the size of the program stack.
+        let mut folders = vec![(parent, path.to_string(), dir_fd, children)];
+
+        let mut result = Ok(());
+
+        while let Some((parent, name, dir_fd, mut children)) = folders.pop() {
+            let child = if result.is_ok() {
+                children.next()
+            } else {
+                None
+            };
+
+            let Some((child_node, child_name)) = child else {
+                // close the folder itself before its deletion
+                self.close(dir_fd)?;
+
+                // Now that it is empty, remove the directory entry from its parent.
+                result = self.remove_dir(parent, &name).and(result);
+
+                continue;
+            };
 
-            // For each child, figure out if it's a subdirectory or file and remove accordingly.
-            for (child_node, child_name) in children {
-                let child_meta = self.storage.get_metadata(child_node)?;
+            folders.push((parent, name, dir_fd, children));
 
-                match child_meta.file_type {
+            // Figure out if the child is a subdirectory or file and remove accordingly.
+            result = match self.storage.get_metadata(child_node) {
+                Ok(child_meta) => match child_meta.file_type {
                     FileType::Directory => {
-                        // Recurse into the subdirectory.
-                        self.remove_recursive(dir_fd, &child_name)?;
+                        // Enter the subdirectory.
+                        self.open(
+                            dir_fd,
+                            &child_name,
+                            FdStat::default(),
+                            OpenFlags::DIRECTORY,
+                            0,
+                        )
+                        .and_then(|child_fd| {
+                            let children = self.list_dir_internal(child_fd, None)?.into_iter();
+                            folders.push((dir_fd, child_name, child_fd, children));
+                            Ok(())
+                        })
                     }
                     FileType::RegularFile => {
                         // Remove the file.
-                        self.remove_file(dir_fd, &child_name)?;
+                        self.remove_file(dir_fd, &child_name)
                     }
                     FileType::SymbolicLink => {
                         unimplemented!("Symbolic links are not supported yet");
                     }
-                }
-            }
-
-            Ok(())
-        })();
-
-        // close the folder itself before its deletion
-        self.close(dir_fd)?;
-
-        // Now that it is empty, remove the directory entry from its parent.
-        self.remove_dir(parent, path)?;
+                },
+                Err(err) => Err(err),
+            };
+        }
 
         result
     }
-- 
2.43.0


From 1f84c3479f3bae65a4a6103fe99a5fb299666770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 24/24] fix: changing the node of a transient file is refused
 with the same error as on stable storage

---
 stable-fs/src/storage/transient.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 208a9e2..964ae54 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -129,28 +129,29 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
-        if let Some(max_size) = new_meta.maximum_size_allowed
-            && new_meta.size > max_size
+        // do not allow changing file type
+        if let Some(old_meta) = old_meta
+            && old_meta.file_type != new_meta.file_type
         {
-            return Err(Error::FileTooLarge);
-        }
-
-        // a file cannot grow above the maximum supported size
-        if new_meta.size > MAX_FILE_SIZE && old_meta.is_none_or(|old| new_meta.size > old.size) {
-            return Err(Error::FileTooLarge);
+            return Err(Error::FunctionNotSupported);
         }
 
+        // changing node is not allowed
         if let Some(old_meta) = old_meta
             && old_meta.node != new_meta.node
         {
-            return Err(Error::InvalidArgument);
+            return Err(Error::IllegalByteSequence);
         }
 
-        // do not allow changing file type
-        if let Some(old_meta) = old_meta
-            && old_meta.file_type != new_meta.file_type
+        if let Some(max_size) = new_meta.maximum_size_allowed
+            && new_meta.size > max_size
         {
-            return Err(Error::FunctionNotSupported);
+            return Err(Error::FileTooLarge);
+        }
+
+        // a file cannot grow above the maximum supported size
+        if new_meta.size > MAX_FILE_SIZE && old_meta.is_none_or(|old| new_meta.size > old.size) {
+            return Err(Error::FileTooLarge);
         }
 
         Ok(())
-- 
2.43.0

