From 65abb02d7cf8540e5351bf138d48f61704b8a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:30 +0000
Subject: [PATCH 01/12] fix: descriptor numbers are never shared or the root
 replaced by renumbering

---
 stable-fs/src/runtime/fd.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/runtime/fd.rs b/stable-fs/src/runtime/fd.rs
index 98762ec..421153b 100644
--- a/stable-fs/src/runtime/fd.rs
+++ b/stable-fs/src/runtime/fd.rs
@@ -85,6 +85,11 @@ impl FdTable {
         let fd = match self.free_fds.pop() {
             Some(fd) => fd,
             None => {
+                // the number may be taken already by a renumbered descriptor
+                while self.table.contains_key(&self.next_fd) {
+                    self.next_fd += 1;
+                }
+
                 let fd = self.next_fd;
                 self.next_fd += 1;
                 fd
@@ -99,10 +104,19 @@ impl FdTable {
     // Copy a file descriptor to a new number, the source descriptor is closed in the process.
     // If the destination descriptor is busy, it is closed in the process.
     pub fn renumber(&mut self, src: Fd, dst: Fd) -> Result<(), Error> {
+        if !self.table.contains_key(&src) {
+            return Err(Error::BadFileDescriptor);
+        }
+
         if src == dst {
             return Ok(());
         }
 
+        // the root descriptor cannot be replaced
+        if dst == ROOT_FD {
+            return Err(Error::BadFileDescriptor);
+        }
+
         // cannot do renumbering between a file and a folder
         let src_entry: Option<&FdEntry> = self.table.get(&src);
         let dst_entry: Option<&FdEntry> = self.table.get(&dst);
@@ -123,10 +137,11 @@ impl FdTable {
         let old_entry = self.close(src).ok_or(Error::BadFileDescriptor)?;
 
         // quietly close the destination file descriptor
-        if let Some(_old_dst_entry) = self.close(dst) {
-            // dst should not be reused by anyone else, so we must undo the fd marked for reusal
-            self.free_fds.retain(|value| *value != dst);
-        }
+        self.close(dst);
+
+        // dst should not be reused by anyone else, so we must undo the fd marked for reusal
+        // (it could also be waiting for reuse since it was closed earlier)
+        self.free_fds.retain(|value| *value != dst);
 
         self.insert(dst, old_entry);
 
-- 
2.43.0


From b2e5b728ba0b5fd8e5ea5c804ab8dea3020ffe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:09 +0000
Subject: [PATCH 02/12] fix: shrinking a file zeroes only the cut part of its
 last chunk

---
 stable-fs/src/storage/stable.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index f9ad4bf..ee0f45a 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -644,9 +644,14 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        // (if the last chunk is kept completely or does not exist, there is nothing to fill)
+        let offset = new_size as FileSize % chunk_size as FileSize;
 
+        if offset > 0
+            && self
+                .filechunk
+                .contains_key(&(node, first_deletable_index - 1))
+        {
             self.write_filechunk_v1(
                 node,
                 first_deletable_index - 1,
@@ -677,9 +682,17 @@ impl<M: Memory> StableStorage<M> {
         }
 
         // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
-            self.write_chunks_v2(node, new_size, &ZEROES[0..(chunk_size - offset as usize)])?;
+        let offset = new_size as FileSize % chunk_size as FileSize;
+
+        if offset > 0
+            && let Some(ptr) = self
+                .v2_filechunk
+                .v2_chunk_ptr
+                .get(&(node, first_deletable_index - 1))
+        {
+            self.v2_filechunk
+                .v2_chunks
+                .write(ptr + offset, &ZEROES[0..(chunk_size - offset as usize)]);
         }
 
         Ok(())
-- 
2.43.0


From 9670dc831987b2e21adcc206a6f3c9bfb0c99f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:01 +0000
Subject: [PATCH 03/12] fix: transient storage drops the content above a
 reduced file size

---
 stable-fs/src/storage/transient.rs | 81 +++++++++++++++++-------------
 1 file changed, 47 insertions(+), 34 deletions(-)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 313dbe0..77b3311 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -11,7 +11,7 @@ use crate::{
         Storage,
         types::{
             DirEntry, DirEntryIndex, FileChunk, FileChunkIndex, FileName, FileSize, FileType,
-            Metadata, MountedFileSizePolicy, Node, Times, ZEROES,
+            Metadata, MountedFileSizePolicy, Node, Times,
         },
     },
 };
@@ -101,6 +101,39 @@ impl TransientStorage {
         }
     }
 
+    // Remove the file content above the new size.
+    fn truncate_chunks(&mut self, node: Node, new_size: FileSize) {
+        if self.is_mounted(node) {
+            // for the mounted node we only update file size in the metadata (no need to delete chunks)
+            return;
+        }
+
+        let chunk_size = FILE_CHUNK_SIZE_V1;
+
+        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
+
+        let range = (node, first_deletable_index)..(node, MAX_FILE_CHUNK_COUNT);
+
+        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
+        for (k, _v) in self.filechunk.range(range) {
+            chunks.push((k.0, k.1));
+        }
+
+        for (nd, idx) in chunks.into_iter() {
+            assert!(nd == node);
+            self.filechunk.remove(&(node, idx));
+        }
+
+        // fill with zeros the last chunk memory above the file size
+        let offset = (new_size % chunk_size as FileSize) as usize;
+
+        if offset > 0
+            && let Some(chunk) = self.filechunk.get_mut(&(node, first_deletable_index - 1))
+        {
+            chunk.bytes[offset..].fill(0);
+        }
+    }
+
     fn validate_metadata_update(
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
@@ -162,14 +195,19 @@ impl Storage for TransientStorage {
             &mut self.metadata
         };
 
-        if let Some(existing) = meta_storage.get(&node) {
-            Self::validate_metadata_update(Some(existing), metadata)?;
-        } else {
-            Self::validate_metadata_update(None, metadata)?;
-        }
+        let existing = meta_storage.get(&node);
+
+        Self::validate_metadata_update(existing, metadata)?;
+
+        // if the size was reduced, the content above the new size is gone
+        let is_shrinking = existing.is_some_and(|existing| metadata.size < existing.size);
 
         meta_storage.insert(node, metadata.clone());
 
+        if is_shrinking {
+            self.truncate_chunks(node, metadata.size);
+        }
+
         Ok(())
     }
 
@@ -280,36 +318,11 @@ impl Storage for TransientStorage {
     }
 
     fn resize_file(&mut self, node: Node, new_size: FileSize) -> Result<(), Error> {
-        let chunk_size = FILE_CHUNK_SIZE_V1;
-
-        let first_deletable_index = (new_size.div_ceil(chunk_size as FileSize)) as FileChunkIndex;
-
-        let range = (node, 0)..(node, MAX_FILE_CHUNK_COUNT);
-
-        // delete v1 chunks
-        let mut chunks: Vec<(Node, FileChunkIndex)> = Vec::new();
-        for (k, _v) in self.filechunk.range(range) {
-            chunks.push((k.0, k.1));
-        }
+        let mut meta = self.get_metadata(node)?;
 
-        for (nd, idx) in chunks.into_iter() {
-            assert!(nd == node);
-            self.filechunk.remove(&(node, idx));
-        }
-
-        // fill with zeros the last chunk memory above the file size
-        if first_deletable_index > 0 {
-            let offset = new_size as FileSize % chunk_size as FileSize;
+        meta.size = new_size;
 
-            self.write_filechunk(
-                node,
-                first_deletable_index - 1,
-                offset,
-                &ZEROES[0..(chunk_size - offset as usize)],
-            );
-        }
-
-        Ok(())
+        self.put_metadata(node, &meta)
     }
 
     fn rm_file(&mut self, node: Node) -> Result<(), Error> {
-- 
2.43.0


From da22e461f9d8cfee69e477cccd0ccd9bea3c1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:33 +0000
Subject: [PATCH 04/12] fix: offsets and sizes beyond the maximum file size are
 refused

---
 stable-fs/src/storage/chunk_iterator.rs |  2 +-
 stable-fs/src/storage/stable.rs         | 23 ++++++++++++++++-------
 stable-fs/src/storage/transient.rs      | 24 +++++++++++++++++-------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/stable-fs/src/storage/chunk_iterator.rs b/stable-fs/src/storage/chunk_iterator.rs
index fb97569..3756125 100644
--- a/stable-fs/src/storage/chunk_iterator.rs
+++ b/stable-fs/src/storage/chunk_iterator.rs
@@ -28,7 +28,7 @@ impl<'a, M: Memory> ChunkV2Iterator<'a, M> {
         v2_chunk_ptr: &'a mut BTreeMap<(Node, FileChunkIndex), FileChunkPtr, VirtualMemory<M>>,
     ) -> Self {
         let cur_index = (offset / chunk_size) as FileChunkIndex;
-        let last_index_excluded = (last_address / chunk_size + 1) as FileChunkIndex;
+        let last_index_excluded = last_address.div_ceil(chunk_size) as FileChunkIndex;
 
         Self {
             node,
diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index ee0f45a..d193cfc 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -436,8 +436,9 @@ impl<M: Memory> StableStorage<M> {
         buf: &mut [u8],
     ) -> Result<FileSize, Error> {
         let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
-        let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-            as FileChunkIndex;
+        let end_index = ((offset + buf.len() as FileSize).min(file_size)
+            / FILE_CHUNK_SIZE_V1 as FileSize
+            + 1) as FileChunkIndex;
 
         let mut chunk_offset = offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
 
@@ -614,6 +615,10 @@ impl<M: Memory> StableStorage<M> {
             return Err(Error::FileTooLarge);
         }
 
+        if new_meta.size > MAX_FILE_SIZE {
+            return Err(Error::FileTooLarge);
+        }
+
         Ok(())
     }
 
@@ -920,9 +925,16 @@ impl<M: Memory> Storage for StableStorage<M> {
             return Ok(0);
         }
 
-        let max_size = metadata.maximum_size_allowed.unwrap_or(MAX_FILE_SIZE);
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
+
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
 
-        if offset + buf.len() as FileSize > max_size {
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
@@ -931,8 +943,6 @@ impl<M: Memory> Storage for StableStorage<M> {
 
             buf.len() as FileSize
         } else {
-            let end = offset + buf.len() as FileSize;
-
             let use_v2 = self.use_v2(&metadata, node);
 
             if use_v2 {
@@ -957,7 +967,6 @@ impl<M: Memory> Storage for StableStorage<M> {
             }
         };
 
-        let end = offset + buf.len() as FileSize;
         if end > metadata.size {
             metadata.size = end;
             self.put_metadata(node, &metadata)?;
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 77b3311..3db8e37 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -18,7 +18,7 @@ use crate::{
 
 use super::types::{
     DUMMY_DOT_DOT_ENTRY, DUMMY_DOT_DOT_ENTRY_INDEX, DUMMY_DOT_ENTRY, DUMMY_DOT_ENTRY_INDEX,
-    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX,
+    FILE_CHUNK_SIZE_V1, Header, MAX_FILE_CHUNK_COUNT, MAX_FILE_ENTRY_INDEX, MAX_FILE_SIZE,
 };
 
 // The root node ID.
@@ -144,6 +144,10 @@ impl TransientStorage {
             return Err(Error::FileTooLarge);
         }
 
+        if new_meta.size > MAX_FILE_SIZE {
+            return Err(Error::FileTooLarge);
+        }
+
         if let Some(old_meta) = old_meta
             && old_meta.node != new_meta.node
         {
@@ -254,8 +258,9 @@ impl Storage for TransientStorage {
         } else {
             let start_index = (offset / FILE_CHUNK_SIZE_V1 as FileSize) as FileChunkIndex;
 
-            let end_index = ((offset + buf.len() as FileSize) / FILE_CHUNK_SIZE_V1 as FileSize + 1)
-                as FileChunkIndex;
+            let end_index = ((offset + buf.len() as FileSize).min(file_size)
+                / FILE_CHUNK_SIZE_V1 as FileSize
+                + 1) as FileChunkIndex;
 
             let mut chunk_offset =
                 offset - start_index as FileSize * FILE_CHUNK_SIZE_V1 as FileSize;
@@ -469,11 +474,16 @@ impl Storage for TransientStorage {
             return Ok(0);
         }
 
-        let end = offset + buf.len() as FileSize;
+        let max_size = metadata
+            .maximum_size_allowed
+            .unwrap_or(MAX_FILE_SIZE)
+            .min(MAX_FILE_SIZE);
 
-        if let Some(max_size) = metadata.maximum_size_allowed
-            && end > max_size
-        {
+        let end = offset
+            .checked_add(buf.len() as FileSize)
+            .ok_or(Error::FileTooLarge)?;
+
+        if end > max_size {
             return Err(Error::FileTooLarge);
         }
 
-- 
2.43.0


From 5909861014b1c6884cadbd8534fea017f3d4bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 05/12] fix: transient storage refuses to change the type of a
 node

---
 stable-fs/src/storage/transient.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 3db8e37..ff8bfe5 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -138,6 +138,13 @@ impl TransientStorage {
         old_meta: Option<&Metadata>,
         new_meta: &Metadata,
     ) -> Result<(), Error> {
+        if let Some(old_meta) = old_meta {
+            // do not allow changing file type
+            if old_meta.file_type != new_meta.file_type {
+                return Err(Error::FunctionNotSupported);
+            }
+        }
+
         if let Some(max_size) = new_meta.maximum_size_allowed
             && new_meta.size > max_size
         {
-- 
2.43.0


From dbc79eba1700a03a6089441c2c148a217857be33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 06/12] fix: seek accepts every valid position and never
 overflows

---
 stable-fs/src/runtime/file.rs | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/stable-fs/src/runtime/file.rs b/stable-fs/src/runtime/file.rs
index d979d91..935aceb 100644
--- a/stable-fs/src/runtime/file.rs
+++ b/stable-fs/src/runtime/file.rs
@@ -49,27 +49,11 @@ impl File {
                 }
                 delta as FileSize
             }
-            Whence::CUR => {
-                let back = if delta < 0 {
-                    (-delta).try_into().map_err(|_| Error::InvalidArgument)?
-                } else {
-                    0
-                };
-                let fwd = if delta >= 0 { delta as FileSize } else { 0 };
-
-                if self.cursor < back {
-                    // seeking before zero position
-                    return Err(Error::InvalidArgument);
-                }
-                self.cursor + fwd - back
-            }
-            Whence::END => {
-                let back: FileSize = (-delta).try_into().map_err(|_| Error::InvalidSeek)?;
-                if back > size {
-                    return Err(Error::InvalidSeek);
-                }
-                size - back
-            }
+            Whence::CUR => self
+                .cursor
+                .checked_add_signed(delta)
+                .ok_or(Error::InvalidArgument)?,
+            Whence::END => size.checked_add_signed(delta).ok_or(Error::InvalidSeek)?,
         };
         self.cursor = position;
         Ok(self.cursor)
-- 
2.43.0


From 71be27e62c4738c963654f1e036910bc4c881ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 07/12] fix: a refused mount leaves the file unmounted

---
 stable-fs/src/storage/stable.rs    | 9 +++++++--
 stable-fs/src/storage/transient.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index d193cfc..21c00eb 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1034,9 +1034,14 @@ impl<M: Memory> Storage for StableStorage<M> {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            // the memory cannot be mounted, go back to the original file
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index ff8bfe5..f865d8c 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -383,9 +383,14 @@ impl Storage for TransientStorage {
         file_meta.size = new_size;
 
         // update mounted metadata
-        self.put_metadata(node, &file_meta)?;
+        let result = self.put_metadata(node, &file_meta);
 
-        Ok(())
+        if result.is_err() {
+            // the memory cannot be mounted, go back to the original file
+            self.active_mounts.remove(&node);
+        }
+
+        result
     }
 
     fn unmount_node(&mut self, node: Node) -> Result<Box<dyn Memory>, Error> {
-- 
2.43.0


From a72c2c63c10d3bb3cdfe4ab1b9b5a82eb99e67ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 08/12] fix: storing a mounted memory cannot fail half way on
 the limit of the host file

---
 stable-fs/src/storage/stable.rs    | 6 ++++++
 stable-fs/src/storage/transient.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 21c00eb..350a7cf 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -1102,6 +1102,12 @@ impl<M: Memory> Storage for StableStorage<M> {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the stored content is subject to the limit of the mounted file
+        let mut host_meta = self.get_metadata(node)?;
+        host_meta.size = host_meta.size.min(file_size);
+        host_meta.maximum_size_allowed = meta.maximum_size_allowed;
+        self.put_metadata(node, &host_meta)?;
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index f865d8c..1268ac0 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -451,6 +451,12 @@ impl Storage for TransientStorage {
         // temporary disable mount to activate access to the original file
         let memory: Box<dyn Memory> = self.unmount_node(node)?;
 
+        // the stored content is subject to the limit of the mounted file
+        let mut host_meta = self.get_metadata(node)?;
+        host_meta.size = host_meta.size.min(file_size);
+        host_meta.maximum_size_allowed = meta.maximum_size_allowed;
+        self.put_metadata(node, &host_meta)?;
+
         // grow memory if needed
         grow_memory(memory.as_ref(), file_size);
 
-- 
2.43.0


From a8333fd18bb7a220b528eb184c78dc2642ccf2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:15 +0000
Subject: [PATCH 09/12] fix: creating a path with an invalid name creates
 nothing

---
 stable-fs/src/runtime/structure_helpers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index 61c0fdd..f0e793b 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -241,6 +241,11 @@ pub fn create_path(
 ) -> Result<(Node, String), Error> {
     let (parts, _must_be_dir) = get_path_parts(path)?;
 
+    // nothing is created, if any of the names is not valid
+    for part in parts.iter() {
+        FileName::new(part.as_bytes())?;
+    }
+
     let mut parent_node = parent_node;
     let mut cur_node = parent_node;
 
-- 
2.43.0


From fb87a2169e0df3b8b4504b58ee322107f7ab63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 10/12] fix: linking and renaming keep link counts, replaced
 files are freed, folders cannot be moved into themselves

---
 stable-fs/src/fs.rs                        | 20 ++++-
 stable-fs/src/runtime/structure_helpers.rs | 96 ++++++++++++++++++++--
 2 files changed, 109 insertions(+), 7 deletions(-)

diff --git a/stable-fs/src/fs.rs b/stable-fs/src/fs.rs
index dcd8d5c..ef3ab33 100644
--- a/stable-fs/src/fs.rs
+++ b/stable-fs/src/fs.rs
@@ -7,7 +7,7 @@ use crate::{
         dir::Dir,
         fd::{FdEntry, FdTable, STDERR_FD},
         file::File,
-        structure_helpers::{create_hard_link, find_node, rm_dir_entry},
+        structure_helpers::{create_hard_link, find_node, is_same_entry, rm_dir_entry},
         types::{RIGHTS_FD_READ, RIGHTS_FD_WRITE},
     },
     storage::{
@@ -871,6 +871,24 @@ impl FileSystem {
         let src_dir = self.get_dir(old_fd)?;
         let dst_dir = self.get_dir(new_fd)?;
 
+        // renaming an entry onto itself changes nothing
+        if is_same_entry(
+            src_dir.node,
+            old_path,
+            dst_dir.node,
+            new_path,
+            self.storage.as_ref(),
+        ) {
+            let node = find_node(
+                src_dir.node,
+                old_path,
+                &mut self.names_cache,
+                self.storage.as_ref(),
+            )?;
+
+            return self.open_internal(node, FdStat::default(), OpenFlags::empty());
+        }
+
         // create a new link
         create_hard_link(
             dst_dir.node,
diff --git a/stable-fs/src/runtime/structure_helpers.rs b/stable-fs/src/runtime/structure_helpers.rs
index f0e793b..2450a96 100644
--- a/stable-fs/src/runtime/structure_helpers.rs
+++ b/stable-fs/src/runtime/structure_helpers.rs
@@ -106,6 +106,66 @@ pub fn find_node(
     }
 }
 
+// Check that two paths lead to the same directory entry.
+pub fn is_same_entry(
+    dir_node1: Node,
+    path1: &str,
+    dir_node2: Node,
+    path2: &str,
+    storage: &dyn Storage,
+) -> bool {
+    match (
+        find_node_with_index(dir_node1, path1, storage),
+        find_node_with_index(dir_node2, path2, storage),
+    ) {
+        (Ok(entry1), Ok(entry2)) => {
+            entry1.parent_dir == entry2.parent_dir && entry1.entry_index == entry2.entry_index
+        }
+        _ => false,
+    }
+}
+
+// Check if the path belongs to the subtree of a given folder (the folder itself included).
+fn is_inside_folder(
+    folder_node: Node,
+    dir_node: Node,
+    path: &str,
+    storage: &dyn Storage,
+) -> Result<bool, Error> {
+    let (parts, _must_be_dir) = get_path_parts(path)?;
+
+    // the path itself leads through the folder
+    let mut cur_node = dir_node;
+
+    for part in parts {
+        let Ok(index) = find_entry_index(cur_node, part.as_bytes(), storage) else {
+            break;
+        };
+
+        cur_node = storage.get_direntry(cur_node, index)?.node;
+
+        if cur_node == folder_node {
+            return Ok(true);
+        }
+    }
+
+    // the path starts somewhere below the folder
+    let mut folders = vec![folder_node];
+
+    while let Some(node) = folders.pop() {
+        if node == dir_node {
+            return Ok(true);
+        }
+
+        storage.with_direntries(node, Some(0), &mut |_index, entry| {
+            folders.push(entry.node);
+            true
+        });
+    }
+
+    Ok(false)
+}
+
 // Create a hard link to an existing node
 #[allow(clippy::too_many_arguments)]
 pub fn create_hard_link(
@@ -122,8 +182,32 @@ pub fn create_hard_link(
     let src_node: Node = find_node(src_dir_node, src_path, names_cache, storage)?;
     let mut metadata = storage.get_metadata(src_node)?;
 
+    // the path has to name an entry of the folder, not the folder itself
+    if get_path_parts(src_path)?.0.is_empty() {
+        return Err(Error::InvalidArgument);
+    }
+
+    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
+    if !is_renaming && metadata.file_type == FileType::Directory {
+        return Err(Error::OperationNotPermitted);
+    }
+
+    // the older entry of a mounted file cannot be removed
+    if is_renaming && storage.is_mounted(src_node) {
+        return Err(Error::TextFileBusy);
+    }
+
+    // a folder cannot be moved into itself
+    if metadata.file_type == FileType::Directory
+        && is_inside_folder(src_node, parent_dir_node, new_path, storage)?
+    {
+        return Err(Error::InvalidArgument);
+    }
+
     match find_node(parent_dir_node, new_path, names_cache, storage) {
         Err(Error::NoSuchFileOrDirectory) => {}
+        // both names belong to the same file already
+        Ok(dst_node) if dst_node == src_node => return Ok(()),
         Ok(dst_node) => {
             let dst_meta = storage.get_metadata(dst_node)?;
 
@@ -143,7 +227,7 @@ pub fn create_hard_link(
             }
 
             // if the operation is allowed so far, try to delete the existing destination entry
-            rm_dir_entry(
+            let (removed_node, removed_metadata) = rm_dir_entry(
                 parent_dir_node,
                 new_path,
                 None,
@@ -152,6 +236,11 @@ pub fn create_hard_link(
                 names_cache,
                 storage,
             )?;
+
+            // that was the last link to the replaced file or folder
+            if removed_metadata.link_count == 0 {
+                storage.rm_file(removed_node)?;
+            }
         }
         Err(err) => return Err(err),
     }
@@ -161,11 +250,6 @@ pub fn create_hard_link(
     //
     let (dir_node, leaf_name) = create_path(parent_dir_node, new_path, None, ctime, storage)?;
 
-    // only allow creating a hardlink on a folder if it is a part of renaming and another link will be removed
-    if !is_renaming && metadata.file_type == FileType::Directory {
-        return Err(Error::OperationNotPermitted);
-    }
-
     metadata.link_count += 1;
     storage.put_metadata(src_node, &metadata)?;
 
-- 
2.43.0


From ae987c61fe295017997958d31e67a2882674d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:12 +0000
Subject: [PATCH 11/12] fix: links made while a memory is mounted are counted
 for the host file

---
 stable-fs/src/storage/stable.rs    | 27 +++++++++++++++++++++++++++
 stable-fs/src/storage/transient.rs | 10 ++++++++++
 2 files changed, 37 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 350a7cf..0aba4e0 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -775,6 +775,30 @@ impl<M: Memory> Storage for StableStorage<M> {
             &mut self.v2_filechunk,
         );
 
+        // the links are shared with the host file
+        if is_mounted {
+            let host_rec = self.meta_provider.get_metadata(
+                node,
+                false,
+                &self.v2_filechunk.v2_chunk_ptr,
+                &self.v2_filechunk.v2_chunks,
+            );
+
+            if let Some((mut host_meta, host_ptr)) = host_rec
+                && host_meta.link_count != metadata.link_count
+            {
+                host_meta.link_count = metadata.link_count;
+
+                self.meta_provider.put_metadata(
+                    node,
+                    false,
+                    &host_meta,
+                    host_ptr,
+                    &mut self.v2_filechunk,
+                );
+            }
+        }
+
         Ok(())
     }
 
@@ -1023,7 +1047,10 @@ impl<M: Memory> Storage for StableStorage<M> {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            // the number of links could have changed since the last mount
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 1268ac0..33e2858 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -215,6 +215,13 @@ impl Storage for TransientStorage {
 
         meta_storage.insert(node, metadata.clone());
 
+        // the links are shared with the host file
+        if self.is_mounted(node)
+            && let Some(host_meta) = self.metadata.get_mut(&node)
+        {
+            host_meta.link_count = metadata.link_count;
+        }
+
         if is_shrinking {
             self.truncate_chunks(node, metadata.size);
         }
@@ -372,7 +379,10 @@ impl Storage for TransientStorage {
 
         let old_size = if let Ok(old_mounted_meta) = self.get_metadata(node) {
             let size = old_mounted_meta.size;
+            let link_count = file_meta.link_count;
             file_meta = old_mounted_meta;
+            // the number of links could have changed since the last mount
+            file_meta.link_count = link_count;
             Some(size)
         } else {
             None
-- 
2.43.0


From 6657bb66ae8714f9aece8c320ef3c2a04452362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 12/12] fix: listing resumed at a dot entry yields the entries
 after it

---
 stable-fs/src/storage/stable.rs    | 10 ++++++++++
 stable-fs/src/storage/transient.rs | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/stable-fs/src/storage/stable.rs b/stable-fs/src/storage/stable.rs
index 0aba4e0..9697602 100644
--- a/stable-fs/src/storage/stable.rs
+++ b/stable-fs/src/storage/stable.rs
@@ -873,8 +873,18 @@ impl<M: Memory> Storage for StableStorage<M> {
             return;
         }
 
+        // the real entries follow after the dummy ones
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index,
+        };
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for en in self
             .direntry
             .range((node, initial_index)..(node, max_index))
diff --git a/stable-fs/src/storage/transient.rs b/stable-fs/src/storage/transient.rs
index 33e2858..1e1647f 100644
--- a/stable-fs/src/storage/transient.rs
+++ b/stable-fs/src/storage/transient.rs
@@ -615,8 +615,18 @@ impl Storage for TransientStorage {
             return;
         }
 
+        // the real entries follow after the dummy ones
+        let initial_index = match initial_index {
+            DUMMY_DOT_ENTRY_INDEX | DUMMY_DOT_DOT_ENTRY_INDEX => 0,
+            index => index,
+        };
+
         let max_index = MAX_FILE_ENTRY_INDEX;
 
+        if initial_index >= max_index {
+            return;
+        }
+
         for ((_node, index), entry) in self
             .direntry
             .range((node, initial_index)..(node, max_index))
-- 
2.43.0

