From 6d0e87b3ae621584154cad5be7cf918b547881c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:44 +0000
Subject: [PATCH 01/19] fix: parallel writer stores uncompressed when an
 algorithm is unavailable

The synchronous writer already falls back to algorithm 0; the parallel one failed the save.
---
 src/executor.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/executor.rs b/src/executor.rs
index 216d151..69179de 100644
--- a/src/executor.rs
+++ b/src/executor.rs
@@ -314,7 +314,11 @@ fn process_node<'scope, 'a, W>(
         config.compression_id
     };
 
-    let compressor = match ctx.registry.get(compression_id) {
+    let compressor = match ctx
+        .registry
+        .get(compression_id)
+        .or_else(|_| ctx.registry.get(0))
+    {
         Ok(c) => c,
         Err(e) => {
             ctx.signal_error(e);
-- 
2.43.0


From dc981fad5b1b694f212c870cd5d2df64b6ab6aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 02/19] fix: reject chunk ranges that overflow or are empty

A trailer or child reference with offset + length wrapping around, or with length 0, panicked.
---
 src/reader.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 7acd7ee..5ebb869 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -785,13 +785,16 @@ impl ParcodeFile {
     /// * `offset`: Absolute byte offset in the file.
     /// * `length`: Total length of the chunk including metadata.
     fn get_chunk(&self, offset: u64, length: u64) -> Result<ChunkNode<'_>> {
-        if offset + length > self.file_size {
-            return Err(ParcodeError::Format(format!(
-                "Chunk out of bounds: {} + {}",
-                offset, length
-            )));
-        }
-        let chunk_end = usize::try_from(offset + length)
+        let end = match offset.checked_add(length) {
+            Some(end) if length > 0 && end <= self.file_size => end,
+            _ => {
+                return Err(ParcodeError::Format(format!(
+                    "Chunk out of bounds: {} + {}",
+                    offset, length
+                )));
+            }
+        };
+        let chunk_end = usize::try_from(end)
             .map_err(|_| ParcodeError::Format("Chunk end exceeds address space".into()))?;
 
         let meta_byte = self
@@ -815,13 +818,14 @@ impl ParcodeFile {
                 .ok_or_else(|| ParcodeError::Format("Failed to read child count".into()))?;
             child_count = Self::read_u32(count_bytes)?;
 
-            let footer_size = child_count as usize * ChildRef::SIZE;
+            let footer_size = u64::from(child_count) * ChildRef::SIZE as u64;
             let total_meta_size = 1 + 4 + footer_size;
 
-            if length < total_meta_size as u64 {
+            if length < total_meta_size {
                 return Err(ParcodeError::Format("Invalid footer size".into()));
             }
-            payload_end = chunk_end - total_meta_size;
+            payload_end = usize::try_from(end - total_meta_size)
+                .map_err(|_| ParcodeError::Format("Payload end exceeds address space".into()))?;
         }
 
         Ok(ChunkNode {
-- 
2.43.0


From f8240f3dbf2b43e54b0866aac10ab1e2cd0c17c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 03/19] fix: reject child references that do not precede their
 parent

A self-referencing or cyclic file recursed until the stack overflowed.
---
 src/reader.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/reader.rs b/src/reader.rs
index 5ebb869..6a9a394 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1191,6 +1191,16 @@ impl<'a> ChunkNode<'a> {
             .ok_or_else(|| ParcodeError::Format("Child reference out of bounds".into()))?;
 
         let r = ChildRef::from_bytes(bytes)?;
+
+        // Children are always written before their parent; anything else could be a cycle.
+        if r.offset
+            .checked_add(r.length)
+            .is_none_or(|end| end > self.offset)
+        {
+            return Err(ParcodeError::Format(
+                "Child chunk does not precede its parent".into(),
+            ));
+        }
         self.reader.get_chunk(r.offset, r.length)
     }
 
-- 
2.43.0


From 21bc3262393ece769a5bc744e34e3632e3a3e7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 04/19] fix: bound allocations driven by recorded lengths when
 loading collections

A corrupt length or repeat count aborted the process instead of failing the load.
---
 src/reader.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 6a9a394..3a8b60e 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -374,7 +374,10 @@ pub trait ParcodeItem: Sized + Send + Sync + 'static {
             .map_err(|_| ParcodeError::Serialization("Vector length exceeds usize".into()))?;
 
         // Allocate uninit vec
-        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::with_capacity(count);
+        let mut uninit_vec: Vec<MaybeUninit<Self>> = Vec::new();
+        uninit_vec
+            .try_reserve_exact(count)
+            .map_err(|_| ParcodeError::Format("Shard length exceeds available memory".into()))?;
         #[allow(unsafe_code)]
         unsafe {
             uninit_vec.set_len(count);
@@ -966,6 +969,11 @@ impl<'a> ChunkNode<'a> {
                 if current_global_idx.checked_add(items_per_shard).is_none() {
                     return Err(ParcodeError::Format("Integer overflow in RLE".into()));
                 }
+                if current_shard_idx >= self.child_count as usize {
+                    return Err(ParcodeError::Format(
+                        "RLE names more shards than exist".into(),
+                    ));
+                }
                 shard_jobs.push((current_shard_idx, current_global_idx, items_per_shard));
                 current_shard_idx += 1;
                 current_global_idx += items_per_shard;
@@ -984,7 +992,10 @@ impl<'a> ChunkNode<'a> {
         }
 
         // 4. Allocate Uninitialized Buffer
-        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::with_capacity(total_items);
+        let mut result_buffer: Vec<MaybeUninit<T>> = Vec::new();
+        result_buffer
+            .try_reserve_exact(total_items)
+            .map_err(|_| ParcodeError::Format("total_items exceeds available memory".into()))?;
         unsafe {
             result_buffer.set_len(total_items);
         }
-- 
2.43.0


From 7857999be1b93c230cf4928225a8e83753bd1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 05/19] fix: validate the recorded size of an LZ4 chunk before
 allocating it

---
 src/compression.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/compression.rs b/src/compression.rs
index d96d465..a9ce118 100644
--- a/src/compression.rs
+++ b/src/compression.rs
@@ -291,6 +291,15 @@ impl Compressor for Lz4Compressor {
     }
 
     fn decompress<'a>(&self, data: &'a [u8]) -> Result<Cow<'a, [u8]>> {
+        // LZ4 expands at most 255 times; a larger recorded size is corrupt.
+        let (size, block) = lz4_flex::block::uncompressed_size(data)
+            .map_err(|e| ParcodeError::Compression(e.to_string()))?;
+        if size / 255 > block.len() {
+            return Err(ParcodeError::Compression(
+                "Recorded size exceeds what the data can hold".to_string(),
+            ));
+        }
+
         let vec = lz4_flex::decompress_size_prepended(data)
             .map_err(|e| ParcodeError::Compression(e.to_string()))?;
         Ok(Cow::Owned(vec))
-- 
2.43.0


From 8a7ac786b13e5908b0e942b025fa3faae1477642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 06/19] fix: report run-length overflow as an error in index
 resolution

A corrupt run table overflowed usize and panicked, or resolved to the wrong shard.
---
 src/reader.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 3a8b60e..8d96875 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1217,19 +1217,25 @@ impl<'a> ChunkNode<'a> {
 
     /// Maps a global item index to a specific (`shard_index`, `internal_index`).
     fn resolve_rle_index(&self, global_index: usize, runs: &[ShardRun]) -> Result<(usize, usize)> {
-        let mut current_base = 0;
-        let mut shard_base = 0;
+        let overflow = || ParcodeError::Format("Integer overflow in RLE".into());
+        let mut current_base: usize = 0;
+        let mut shard_base: usize = 0;
 
         for run in runs {
             let count = run.item_count as usize;
-            let total_run = count * run.repeat as usize;
+            let total_run = count
+                .checked_mul(run.repeat as usize)
+                .ok_or_else(overflow)?;
+            let run_end = current_base.checked_add(total_run).ok_or_else(overflow)?;
 
-            if global_index < current_base + total_run {
+            if global_index < run_end {
                 let offset = global_index - current_base;
                 return Ok((shard_base + (offset / count), offset % count));
             }
-            current_base += total_run;
-            shard_base += run.repeat as usize;
+            current_base = run_end;
+            shard_base = shard_base
+                .checked_add(run.repeat as usize)
+                .ok_or_else(overflow)?;
         }
         Err(ParcodeError::Format("Index out of bounds".into()))
     }
-- 
2.43.0


From 86ed89e406aa4cecb84f57669c4794f692a44d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 07/19] fix: lazy iteration skips empty shards and never
 underflows its counters

An empty shard, or shards holding more items than recorded, panicked.
---
 src/rt.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/rt.rs b/src/rt.rs
index bee9070..6fbc5cc 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -652,8 +652,8 @@ where
             return Ok(true);
         }
 
-        // Current shard finished. Load next.
-        if let Some(shard_node) = self.shards.next() {
+        // Current shard finished. Load next, skipping shards without items.
+        while let Some(shard_node) = self.shards.next() {
             // 1. Load Payload
             let payload = shard_node.read_raw()?;
 
@@ -672,10 +672,11 @@ where
             self.current_payload = Some(payload);
             self.current_children = children.into_iter();
 
-            Ok(true)
-        } else {
-            Ok(false) // No more shards
+            if len > 0 {
+                return Ok(true);
+            }
         }
+        Ok(false) // No more shards
     }
 }
 
@@ -714,7 +715,7 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let remaining = self.total_items - self.items_yielded;
+        let remaining = self.total_items.saturating_sub(self.items_yielded);
         (remaining, Some(remaining))
     }
 }
@@ -724,7 +725,7 @@ where
     T: ParcodeLazyRef<'a>,
 {
     fn len(&self) -> usize {
-        self.total_items - self.items_yielded
+        self.total_items.saturating_sub(self.items_yielded)
     }
 }
 
-- 
2.43.0


From 84d77dd5d5139cd93c0ff13663628c97466e38da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 08/19] fix: iterate over empty shards without recursing

A file with many empty shards overflowed the stack in ChunkIterator::next.
---
 src/reader.rs | 59 ++++++++++++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8d96875..b21b81d 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1310,38 +1310,39 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
             return None;
         }
 
-        // 1. Try to pull from current loaded shard
-        if let Some(item) = self.current_items_in_shard.next() {
-            self.current_global_idx += 1;
-            return Some(Ok(item));
-        }
+        loop {
+            // 1. Try to pull from current loaded shard
+            if let Some(item) = self.current_items_in_shard.next() {
+                self.current_global_idx += 1;
+                return Some(Ok(item));
+            }
 
-        // 2. Buffer empty? Load next shard
-        if self.current_shard_idx >= self.container.child_count as usize {
-            return Some(Err(ParcodeError::Internal(
-                "Iterator mismatch: runs out of shards".into(),
-            )));
-        }
+            // 2. Buffer empty? Load next shard
+            if self.current_shard_idx >= self.container.child_count as usize {
+                return Some(Err(ParcodeError::Internal(
+                    "Iterator mismatch: runs out of shards".into(),
+                )));
+            }
 
-        // Load logic
-        let next_shard_res = self
-            .container
-            .get_child_by_index(self.current_shard_idx)
-            .and_then(|node| {
-                let payload = node.read_raw()?;
-                let mut cursor = std::io::Cursor::new(payload.as_ref());
-                let children = node.children()?;
-                let mut child_iter = children.into_iter();
-                T::read_slice_from_shard(&mut cursor, &mut child_iter)
-            });
-
-        match next_shard_res {
-            Ok(items) => {
-                self.current_items_in_shard = items.into_iter();
-                self.current_shard_idx += 1;
-                self.next()
+            // Load logic
+            let next_shard_res = self
+                .container
+                .get_child_by_index(self.current_shard_idx)
+                .and_then(|node| {
+                    let payload = node.read_raw()?;
+                    let mut cursor = std::io::Cursor::new(payload.as_ref());
+                    let children = node.children()?;
+                    let mut child_iter = children.into_iter();
+                    T::read_slice_from_shard(&mut cursor, &mut child_iter)
+                });
+
+            match next_shard_res {
+                Ok(items) => {
+                    self.current_items_in_shard = items.into_iter();
+                    self.current_shard_idx += 1;
+                }
+                Err(e) => return Some(Err(e)),
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From 04fa211e0107a4b22018664f7eed119916d9d079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 09/19] fix: decode collections on wasm32 with the parallel
 feature enabled

Neither branch was compiled in, so an uninitialised Vec was returned.
---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index b21b81d..652f371 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1021,7 +1021,7 @@ impl<'a> ChunkNode<'a> {
             )?;
         }
 
-        #[cfg(not(feature = "parallel"))]
+        #[cfg(any(not(feature = "parallel"), target_arch = "wasm32"))]
         {
             // Serial Execution
             for (shard_idx, start_idx, expected_count) in shard_jobs {
-- 
2.43.0


From c8cc624f0b465f8459165f6e26a98677642ec427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 10/19] fix: inspector no longer overflows when adding up shard
 repeats

---
 src/inspector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inspector.rs b/src/inspector.rs
index 784af44..482188b 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -141,7 +141,7 @@ impl ParcodeInspector {
                     let distribution = format!(
                         "Vec<{}> items across {} logical shards",
                         total_items,
-                        runs.iter().map(|r| r.repeat).sum::<u32>()
+                        runs.iter().map(|r| u64::from(r.repeat)).sum::<u64>()
                     );
                     return ("Vec Container".to_string(), Some(distribution));
                 }
-- 
2.43.0


From 7bf7f5708621aa2573432056596be1ba4bfb6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 11/19] fix: first, last and iter_lazy report an unreadable
 container

They treated a container that failed to decompress as an empty collection.
---
 src/reader.rs | 19 +++++++++++++------
 src/rt.rs     |  8 +++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 652f371..96c9e63 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1079,13 +1079,20 @@ impl<'a> ChunkNode<'a> {
 
     /// Returns the logical number of items in this container.
     pub fn len(&self) -> u64 {
-        if let Ok(payload) = self.read_raw()
-            && payload.len() >= 8
-            && let Some(bytes) = payload.get(0..8).and_then(|s| s.try_into().ok())
-        {
-            return u64::from_le_bytes(bytes);
+        self.try_len().unwrap_or(0)
+    }
+
+    /// Reads the logical length, reporting a container that cannot be read.
+    pub(crate) fn try_len(&self) -> Result<u64> {
+        let payload = self.read_raw()?;
+        if payload.is_empty() {
+            return Ok(0);
         }
-        0
+        payload
+            .get(0..8)
+            .and_then(|s| s.try_into().ok())
+            .map(u64::from_le_bytes)
+            .ok_or_else(|| ParcodeError::Format("Not a valid container".into()))
     }
 
     /// Checks if the container is empty.
diff --git a/src/rt.rs b/src/rt.rs
index 6fbc5cc..66b9b5b 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -189,7 +189,7 @@ where
 
     /// Returns the first item as a lazy mirror, or None if empty.
     pub fn first(&self) -> Result<Option<T::Lazy>> {
-        if self.is_empty() {
+        if self.node.try_len()? == 0 {
             Ok(None)
         } else {
             Ok(Some(self.get_lazy(0)?))
@@ -198,7 +198,8 @@ where
 
     /// Returns the last item as a lazy mirror, or None if empty.
     pub fn last(&self) -> Result<Option<T::Lazy>> {
-        let len = self.len();
+        let len = usize::try_from(self.node.try_len()?)
+            .map_err(|_| crate::ParcodeError::Format("Length exceeds usize".into()))?;
         if len == 0 {
             Ok(None)
         } else {
@@ -631,7 +632,8 @@ where
     T: ParcodeLazyRef<'a>,
 {
     pub fn new(node: ChunkNode<'a>) -> Result<Self> {
-        let total_items = usize::try_from(node.len()).unwrap_or(usize::MAX);
+        let total_items = usize::try_from(node.try_len()?)
+            .map_err(|_| crate::ParcodeError::Format("Length exceeds usize".into()))?;
         let shards = node.children()?.into_iter();
 
         Ok(Self {
-- 
2.43.0


From d59410589b43b3b38905f22b63b75cb3e5399536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 12/19] fix: look up and load maps that were stored without
 shards

get and get_lazy divided by zero on an empty map, and the promise returned an empty map or
no entry for a map stored as one value; a small one was also dropped by the eager loader.
---
 src/reader.rs |  8 ++++----
 src/rt.rs     | 30 ++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 96c9e63..234e13c 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -535,14 +535,14 @@ where
     fn from_node(node: &ChunkNode<'_>) -> Result<Self> {
         // Standard HashMap reconstruction logic (same as before)
         let container_payload = node.read_raw()?;
-        if container_payload.len() < 4 {
-            return Ok(Self::new());
-        }
-
         if node.child_count == 0 {
             return node.decode();
         }
 
+        if container_payload.len() < 4 {
+            return Err(ParcodeError::Format("Map container too short".into()));
+        }
+
         let shards = node.children()?;
         let mut map = Self::new();
 
diff --git a/src/rt.rs b/src/rt.rs
index 66b9b5b..026b620 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -247,6 +247,11 @@ where
     /// 2. Iterating over each shard and deserializing its entries
     /// 3. Merging all entries into a single `HashMap`
     pub fn load(&self) -> Result<HashMap<K, V>> {
+        // A map without shards is stored as one value
+        if self.node.child_count() == 0 {
+            return self.node.decode();
+        }
+
         // 1. Read number of shards from container
         let container_payload = self.node.read_raw()?;
         let num_shards = if container_payload.len() >= 4 {
@@ -334,6 +339,11 @@ where
     /// - O(N/S) linear scan within shard (where S = number of shards)
     /// - SIMD-optimized hash comparison on supported platforms
     pub fn get(&self, key: &K) -> Result<Option<V>> {
+        // A map without shards is stored as one value
+        if self.node.child_count() == 0 {
+            return Ok(self.node.decode::<HashMap<K, V>>()?.remove(key));
+        }
+
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
         if container_payload.len() < 4 {
@@ -453,6 +463,26 @@ where
     pub fn get_lazy(&self, key: &K) -> Result<Option<V::Lazy>> {
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
+
+        // A map without shards is stored as one value
+        if self.node.child_count() == 0 {
+            let mut cursor = Cursor::new(container_payload.as_ref());
+            let mut no_children = Vec::new().into_iter();
+            let len: u64 =
+                bincode::serde::decode_from_std_read(&mut cursor, bincode::config::standard())
+                    .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
+            for _ in 0..len {
+                let stored_key: K =
+                    bincode::serde::decode_from_std_read(&mut cursor, bincode::config::standard())
+                        .map_err(|e| crate::ParcodeError::Serialization(e.to_string()))?;
+                let value = V::read_lazy_from_stream(&mut cursor, &mut no_children)?;
+                if &stored_key == key {
+                    return Ok(Some(value));
+                }
+            }
+            return Ok(None);
+        }
+
         if container_payload.len() < 4 {
             return Ok(None);
         } // Empty
-- 
2.43.0


From 90defb02c4cfb3ffaa811f64ef16722891ecfcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 13/19] fix: report truncated map containers and shards instead
 of treating them as empty

---
 src/reader.rs |  2 +-
 src/rt.rs     | 42 ++++++++++++++++++++----------------------
 2 files changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 234e13c..a4be183 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -548,7 +548,7 @@ where
 
         for shard in shards {
             let payload = shard.read_raw()?;
-            if payload.len() < 8 {
+            if payload.is_empty() {
                 continue;
             }
 
diff --git a/src/rt.rs b/src/rt.rs
index 026b620..3cf18a1 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -254,21 +254,19 @@ where
 
         // 1. Read number of shards from container
         let container_payload = self.node.read_raw()?;
-        let num_shards = if container_payload.len() >= 4 {
-            u32::from_le_bytes(
-                container_payload
-                    .get(0..4)
-                    .ok_or_else(|| crate::ParcodeError::Format("Payload too short".into()))?
-                    .try_into()
-                    .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
-            )
-        } else {
-            0
-        };
+        let num_shards = u32::from_le_bytes(
+            container_payload
+                .get(0..4)
+                .ok_or_else(|| crate::ParcodeError::Format("Payload too short".into()))?
+                .try_into()
+                .map_err(|_| crate::ParcodeError::Format("Failed to read num_shards".into()))?,
+        );
 
         let mut map = HashMap::new();
-        if num_shards == 0 {
-            return Ok(map);
+        if num_shards != self.node.child_count() {
+            return Err(crate::ParcodeError::Format(
+                "Map shard count mismatch".into(),
+            ));
         }
 
         // 2. Iterate over shards
@@ -276,7 +274,7 @@ where
         let shards = self.node.children()?;
         for shard in shards {
             let payload = shard.read_raw()?;
-            if payload.len() < 8 {
+            if payload.is_empty() {
                 continue;
             }
 
@@ -346,9 +344,6 @@ where
 
         // 1. Read Container Payload (Num Shards)
         let container_payload = self.node.read_raw()?;
-        if container_payload.len() < 4 {
-            return Ok(None);
-        } // Empty
         let num_shards = u32::from_le_bytes(
             container_payload
                 .get(0..4)
@@ -358,6 +353,9 @@ where
         );
 
         // 2. Hash & Select Shard
+        if num_shards == 0 {
+            return Err(crate::ParcodeError::Format("Map without shards".into()));
+        }
         let target_hash = crate::map::hash_key(key);
         let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
 
@@ -365,7 +363,7 @@ where
         let shard = self.node.get_child_by_index(shard_idx)?;
         let payload = shard.read_raw()?;
 
-        if payload.len() < 8 {
+        if payload.is_empty() {
             return Ok(None);
         } // Empty shard
 
@@ -483,9 +481,6 @@ where
             return Ok(None);
         }
 
-        if container_payload.len() < 4 {
-            return Ok(None);
-        } // Empty
         let num_shards = u32::from_le_bytes(
             container_payload
                 .get(0..4)
@@ -495,6 +490,9 @@ where
         );
 
         // 2. Hash & Select Shard
+        if num_shards == 0 {
+            return Err(crate::ParcodeError::Format("Map without shards".into()));
+        }
         let target_hash = crate::map::hash_key(key);
         let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
 
@@ -502,7 +500,7 @@ where
         let shard = self.node.get_child_by_index(shard_idx)?;
         let payload = shard.read_raw()?;
 
-        if payload.len() < 8 {
+        if payload.is_empty() {
             return Ok(None);
         } // Empty shard
 
-- 
2.43.0


From a8e2da18e3c5d3862187c931a48ddae218c62396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 14/19] fix: select the map shard from the whole hash on every
 target

On 32-bit targets hashes above u32::MAX all selected shard 0, so files written there could not
be searched on 64-bit targets and the other way round.
---
 src/rt.rs            | 4 ++--
 src/visitor_impls.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rt.rs b/src/rt.rs
index 3cf18a1..3f1c2c7 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -357,7 +357,7 @@ where
             return Err(crate::ParcodeError::Format("Map without shards".into()));
         }
         let target_hash = crate::map::hash_key(key);
-        let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
+        let shard_idx = usize::try_from(target_hash % u64::from(num_shards)).unwrap_or(0);
 
         // 3. Load Shard
         let shard = self.node.get_child_by_index(shard_idx)?;
@@ -494,7 +494,7 @@ where
             return Err(crate::ParcodeError::Format("Map without shards".into()));
         }
         let target_hash = crate::map::hash_key(key);
-        let shard_idx = usize::try_from(target_hash).unwrap_or(0) % (num_shards as usize);
+        let shard_idx = usize::try_from(target_hash % u64::from(num_shards)).unwrap_or(0);
 
         // 3. Load Shard
         let shard = self.node.get_child_by_index(shard_idx)?;
diff --git a/src/visitor_impls.rs b/src/visitor_impls.rs
index 02eb58a..0536c72 100644
--- a/src/visitor_impls.rs
+++ b/src/visitor_impls.rs
@@ -371,7 +371,7 @@ where
 
         for (k, v) in self {
             let h = hash_key(k);
-            let idx = usize::try_from(h).unwrap_or(0) % num_shards;
+            let idx = usize::try_from(h % num_shards as u64).unwrap_or(0);
             if let Some(bucket) = buckets.get_mut(idx) {
                 bucket.push((k, v));
             }
-- 
2.43.0


From 8500b02c5c57584034f73168db58a762c56d301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 15/19] fix: u128 and i128 chunkable fields can be read lazily

They can be written and loaded eagerly, but a struct with such a field did not compile.
---
 src/rt.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt.rs b/src/rt.rs
index 3f1c2c7..12a38eb 100644
--- a/src/rt.rs
+++ b/src/rt.rs
@@ -784,7 +784,9 @@ macro_rules! impl_lazy_primitive {
     }
 }
 
-impl_lazy_primitive!(u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, String);
+impl_lazy_primitive!(
+    u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, bool, String
+);
 
 // --- BLANKET IMPLEMENTATION FOR VECTORS ---
 
-- 
2.43.0


From ffc08d9c29e7fbe56925c061350e62f152a65b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 16/19] fix: an empty map field keeps its own compression
 setting

---
 src/visitor_impls.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/visitor_impls.rs b/src/visitor_impls.rs
index 0536c72..23d2f6c 100644
--- a/src/visitor_impls.rs
+++ b/src/visitor_impls.rs
@@ -328,10 +328,15 @@ where
             // If parent_id is Some, we are a chunkable child -> Create node and link.
             // (The macro only calls visit with Some if the field is chunkable).
 
-            let job = if total_items != 0 {
+            let job: Box<dyn SerializationJob<'a> + 'a> = if total_items != 0 {
                 self.create_job(config_override)
             } else {
-                Box::new(MapContainerJob { num_shards: 0 })
+                let empty = Box::new(MapContainerJob { num_shards: 0 });
+                if let Some(cfg) = config_override {
+                    Box::new(crate::rt::ConfiguredJob::new(empty, cfg))
+                } else {
+                    empty
+                }
             };
             let my_id = graph.add_node(job);
 
-- 
2.43.0


From 8dc2717b2041cbfd5f8713bb1506a17049ac36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:58 +0000
Subject: [PATCH 17/19] fix: report malformed collections as format errors, not
 internal ones

---
 src/reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index a4be183..10611d3 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1152,7 +1152,7 @@ impl<'a> ChunkNode<'a> {
         shard_data
             .into_iter()
             .nth(index_in_shard)
-            .ok_or(ParcodeError::Internal("Shard index mismatch".into()))
+            .ok_or(ParcodeError::Format("Shard index mismatch".into()))
     }
 
     /// Creates a streaming iterator over the collection.
@@ -1326,7 +1326,7 @@ impl<'a, T: ParcodeItem> Iterator for ChunkIterator<'a, T> {
 
             // 2. Buffer empty? Load next shard
             if self.current_shard_idx >= self.container.child_count as usize {
-                return Some(Err(ParcodeError::Internal(
+                return Some(Err(ParcodeError::Format(
                     "Iterator mismatch: runs out of shards".into(),
                 )));
             }
-- 
2.43.0


From a11aca7357f83ac5f8ab30a7a27261db5bd714aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:09 +0000
Subject: [PATCH 18/19] fix: check the shard index of a run for overflow

---
 src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 10611d3..d865585 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -1237,7 +1237,8 @@ impl<'a> ChunkNode<'a> {
 
             if global_index < run_end {
                 let offset = global_index - current_base;
-                return Ok((shard_base + (offset / count), offset % count));
+                let shard = shard_base.checked_add(offset / count).ok_or_else(overflow)?;
+                return Ok((shard, offset % count));
             }
             current_base = run_end;
             shard_base = shard_base
-- 
2.43.0


From 3dac70442dbd9db3eef84fa8517e2c567c7d2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:55 +0000
Subject: [PATCH 19/19] fix: build for targets without files: inspecting a path
 needs ParcodeFile::open

---
 src/inspector.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/inspector.rs b/src/inspector.rs
index 482188b..6e94e42 100644
--- a/src/inspector.rs
+++ b/src/inspector.rs
@@ -11,6 +11,7 @@
 use crate::error::Result;
 use crate::reader::{ChunkNode, ParcodeFile};
 use serde::{Deserialize, Serialize};
+#[cfg(not(target_arch = "wasm32"))]
 use std::path::Path;
 
 /// A structural report of a Parcode file.
@@ -68,6 +69,9 @@ impl ParcodeInspector {
     }
 
     /// Convenience wrapper to inspect from path.
+    ///
+    /// **Note:** This method is not available on WASM targets.
+    #[cfg(not(target_arch = "wasm32"))]
     pub fn inspect<P>(path: P) -> Result<DebugReport>
     where
         P: AsRef<Path>,
-- 
2.43.0

