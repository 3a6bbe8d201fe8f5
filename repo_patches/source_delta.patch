From 582294730353931d8e016142747763cc566aecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 01/15] fix: do not reinterpret misaligned bytes when loading
 indexes and elements

Layers are stored at arbitrary offsets in an index file and buffers given to
from_bytes can have any alignment, but the bytes were reinterpreted as slices
of types requiring a larger alignment (undefined behavior).
---
 src/io.rs                   | 18 ++++++++++++++++
 src/slice_vector/mod.rs     | 41 ++++++++++++++++++++++---------------
 src/slice_vector/offsets.rs |  8 +++++---
 3 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 49ecdee..17a7f1f 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -1,6 +1,9 @@
+use std::borrow::Cow;
 use std::io::{Result, Write};
 
 /// Loads a slice of bytes as a slice of type T
+///
+/// `bytes` needs to be aligned for type T
 pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     let elements: &[T] =
         ::std::slice::from_raw_parts(bytes.as_ptr() as *const T, bytes.len() / ::std::mem::size_of::<T>());
@@ -8,6 +11,21 @@ pub unsafe fn load_bytes_as<T>(bytes: &[u8]) -> &[T] {
     elements
 }
 
+/// Loads a slice of bytes as a slice of type T, the elements are copied if `bytes` is not aligned
+/// for type T
+pub unsafe fn load_unaligned_bytes_as<T: Clone>(bytes: &[u8]) -> Cow<'_, [T]> {
+    if bytes.as_ptr() as usize % ::std::mem::align_of::<T>() == 0 {
+        Cow::Borrowed(load_bytes_as(bytes))
+    } else {
+        Cow::Owned(
+            bytes
+                .chunks_exact(::std::mem::size_of::<T>())
+                .map(|x| ::std::ptr::read_unaligned(x.as_ptr() as *const T))
+                .collect(),
+        )
+    }
+}
+
 pub fn write_as_bytes<T, B: Write>(elements: &[T], buffer: &mut B) -> Result<usize> {
     let size = elements.len() * ::std::mem::size_of::<T>();
     let data = unsafe { ::std::slice::from_raw_parts(elements.as_ptr() as *const u8, size) };
diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index bfe6111..4cf1648 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -121,11 +121,12 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (data, width) = Self::load_mmap(buffer);
+        let width = Self::load_width(buffer);
+        let data = unsafe { io::load_unaligned_bytes_as(&buffer[U64_LEN..]) };
 
         assert!(width > 0 && data.len() % width == 0);
 
-        Self::Memory(Cow::Borrowed(data), width)
+        Self::Memory(data, width)
     }
 
     /// Returns an iterator over all slices in `self`.
@@ -211,15 +212,17 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
     }
 
     fn load_mmap(buffer: &[u8]) -> (&[T], usize) {
-        let width = {
-            let mut buf = [0x0; U64_LEN];
-            buf.copy_from_slice(&buffer[..U64_LEN]);
-            u64::from_le_bytes(buf) as usize
-        };
+        let width = Self::load_width(buffer);
 
         (unsafe { crate::io::load_bytes_as(&buffer[U64_LEN..]) }, width)
     }
 
+    fn load_width(buffer: &[u8]) -> usize {
+        let mut buf = [0x0; U64_LEN];
+        buf.copy_from_slice(&buffer[..U64_LEN]);
+        u64::from_le_bytes(buf) as usize
+    }
+
     pub fn read<I: Read>(mut reader: I) -> Result<Self> {
         let width = {
             let mut buf = [0x0; U64_LEN];
@@ -518,8 +521,8 @@ where
     }
 
     pub fn from_bytes(buffer: &'a [u8]) -> Self {
-        let (offsets, data) = Self::load_mmap(buffer);
-        Self::Memory(Cow::Borrowed(offsets), Cow::Borrowed(data))
+        let (offsets, data) = Self::split_mmap(buffer);
+        unsafe { Self::Memory(io::load_unaligned_bytes_as(offsets), io::load_unaligned_bytes_as(data)) }
     }
 
     pub fn extend_from_slice_vector(self: &mut Self, other: &VariableWidthSliceVector<T, Offset>) {
@@ -658,14 +661,7 @@ impl<'a, T: Clone, Offset: Clone> VariableWidthSliceVector<'a, T, Offset> {
     }
 
     fn load_mmap(buffer: &[u8]) -> (&[Offset], &[T]) {
-        let num_slices = {
-            let mut buf = [0x0; U64_LEN];
-            buf.copy_from_slice(&buffer[..U64_LEN]);
-            u64::from_le_bytes(buf) as usize
-        };
-
-        let offset_len = ::std::mem::size_of::<Offset>();
-        let (offsets, data) = buffer[U64_LEN..].split_at((1 + num_slices) * offset_len);
+        let (offsets, data) = Self::split_mmap(buffer);
 
         unsafe {
             (
@@ -674,6 +670,17 @@ impl<'a, T: Clone, Offset: Clone> VariableWidthSliceVector<'a, T, Offset> {
             )
         }
     }
+
+    fn split_mmap(buffer: &[u8]) -> (&[u8], &[u8]) {
+        let num_slices = {
+            let mut buf = [0x0; U64_LEN];
+            buf.copy_from_slice(&buffer[..U64_LEN]);
+            u64::from_le_bytes(buf) as usize
+        };
+
+        let offset_len = ::std::mem::size_of::<Offset>();
+        buffer[U64_LEN..].split_at((1 + num_slices) * offset_len)
+    }
 }
 
 #[cfg(test)]
diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index dd82d31..f42daa2 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -145,8 +145,9 @@ impl<'a, T: Clone> CompressedVariableWidthSliceVector<'a, T> {
     }
 }
 
-#[repr(C)]
-#[derive(Clone)]
+// `packed`, since a `Chunk` is loaded in place from buffers without any alignment guarantees
+#[repr(C, packed)]
+#[derive(Clone, Copy)]
 pub struct Chunk {
     initial: usize,
     deltas: [DeltaType; OFFSETS_PER_CHUNK],
@@ -163,7 +164,8 @@ impl Chunk {
     }
 
     fn len(self: &Self) -> usize {
-        self.deltas.iter().take_while(|&&x| x != UNUSED).count()
+        let deltas = self.deltas;
+        deltas.iter().take_while(|&&x| x != UNUSED).count()
     }
 
     fn is_empty(self: &Self) -> bool {
-- 
2.43.0


From 07197689ec7490c9be05bf24f0baf72528de52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 02/15] fix: do not overwrite neighbors added to a node by
 another thread

The check whether a node is empty was done before taking the write lock, so
neighbors connected in between were overwritten and could end up twice in the
same neighbor list.
---
 src/index/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/index/mod.rs b/src/index/mod.rs
index 5370b1e..de294c6 100644
--- a/src/index/mod.rs
+++ b/src/index/mod.rs
@@ -832,9 +832,7 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         }
 
         // if current node is empty, initialize it with the neighbors
-        if layer[idx].read()[0] == UNUSED {
-            Self::initialize_node(&layer[idx], &neighbors[..]);
-        } else {
+        if !Self::initialize_node(&layer[idx], &neighbors[..]) {
             for &(neighbor, d) in &neighbors {
                 Self::connect_nodes(elements, &layer[idx], idx, neighbor, d);
             }
@@ -882,16 +880,21 @@ impl<Elements: ElementContainer + Sync> GranneBuilder<Elements> {
         neighbors
     }
 
-    /// Sets neighbors for `node`.
-    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) {
-        debug_assert_eq!(&UNUSED, &node.read()[0]);
-
+    /// Sets neighbors for `node` if it is empty. Returns false if `node` already has neighbors (it
+    /// could have been connected by another thread), in which case it is left untouched.
+    fn initialize_node(node: &parking_lot::RwLock<&mut [NeighborId]>, neighbors: &[(usize, NotNan<f32>)]) -> bool {
         // Write Lock!
         let mut node = node.write();
 
+        if node[0] != UNUSED {
+            return false;
+        }
+
         for (i, &(idx, _)) in neighbors.iter().enumerate().take(node.len()) {
             node[i] = NeighborId::try_from(idx).unwrap();
         }
+
+        true
     }
 
     /// Tries to add `j` as a neighbor to `i`. If the neighbor list is full, uses `select_neighbors`
-- 
2.43.0


From 9057f6f84255829fcea433903ced2cff2ed30ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 03/15] fix: report write errors when flushing buffered writers

The buffered writers were dropped without being flushed, so errors when writing
the last buffered bytes were silently ignored.
---
 src/elements/embeddings/parsing.rs | 4 ++++
 src/index/io.rs                    | 2 +-
 src/index/rw/mod.rs                | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index d3550b4..2b2ad2c 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -43,6 +43,7 @@ pub fn parse_elements_and_save_to_disk(
     let mut file = BufWriter::new(file);
 
     elements.write(&mut file).expect("Failed to write elements to disk");
+    file.flush().expect("Failed to write elements to disk");
 
     elements.len()
 }
@@ -94,6 +95,7 @@ pub fn parse_elements_and_save_shards_to_disk(
         elements
             .write_range(&mut file, begin, end)
             .expect("Failed to write elements to disk");
+        file.flush().expect("Failed to write elements to disk");
     }
 
     elements.len()
@@ -149,6 +151,8 @@ pub fn compute_embeddings_and_save_to_disk(
             progress_bar.add(vectors.len() as u64);
         }
     }
+
+    file.flush().unwrap();
 }
 
 pub fn parse_elements_in_directory_or_file(
diff --git a/src/index/io.rs b/src/index/io.rs
index 242a6e1..0164c5b 100644
--- a/src/index/io.rs
+++ b/src/index/io.rs
@@ -66,7 +66,7 @@ pub(super) fn write_index(layers: &Layers, buffer: impl Write + Seek) -> Result<
 
     buffer.write_all(metadata.as_slice())?;
 
-    Ok(())
+    buffer.flush()
 }
 
 pub(super) fn load_layers(buffer: &'_ [u8]) -> Layers<'_> {
diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 5ce3ade..a6887e2 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -76,6 +76,7 @@ where
 
         let mut elements_file = BufWriter::new(elements_file);
         elements.write(&mut elements_file)?;
+        elements_file.flush()?;
 
         // this is safe because we have a write lock on self.write_lock, so no writes
         // can happen
-- 
2.43.0


From 1b620fbe74969620f68e84ef582a9b14f3e39041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 04/15] fix: reject offset deltas that are reserved for unused
 entries

A delta of 65535 passed the assertion but is the marker for unused entries, so
the offset was silently lost.
---
 src/slice_vector/offsets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slice_vector/offsets.rs b/src/slice_vector/offsets.rs
index f42daa2..0e5b060 100644
--- a/src/slice_vector/offsets.rs
+++ b/src/slice_vector/offsets.rs
@@ -206,7 +206,7 @@ impl Chunk {
 
         assert!(offset >= last_offset);
         let delta = offset - last_offset;
-        assert!(delta <= DeltaType::max_value() as usize);
+        assert!(delta < UNUSED as usize);
         self.deltas[self.len()] = delta as DeltaType;
     }
 
-- 
2.43.0


From 88c965fcf6daf849afde4bb446a1c8e9e3d3a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 05/15] fix: include metadata in the number of bytes reported
 as written

---
 src/slice_vector/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 4cf1648..93b7ffe 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -464,8 +464,11 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let (data, width) = self.load();
 
         buffer.write_all(&width.to_le_bytes())?;
+        let mut bytes_written = std::mem::size_of::<u64>();
+
+        bytes_written += io::write_as_bytes(&data[..], buffer)?;
 
-        io::write_as_bytes(&data[..], buffer)
+        Ok(bytes_written)
     }
 }
 
@@ -582,12 +585,14 @@ where
         for &offset in &offsets[begin..=end] {
             let offset = usize::try_from(offset).unwrap();
             let offset = Offset::try_from(offset - offset_begin).unwrap();
-            io::write_as_bytes(&[offset], buffer)?;
+            bytes_written += io::write_as_bytes(&[offset], buffer)?;
         }
 
         let data_begin = usize::try_from(offsets[begin]).unwrap();
         let data_end = usize::try_from(offsets[end]).unwrap();
-        io::write_as_bytes(&data[data_begin..data_end], buffer)
+        bytes_written += io::write_as_bytes(&data[data_begin..data_end], buffer)?;
+
+        Ok(bytes_written)
     }
 
     pub fn get(self: &Self, idx: usize) -> &[T] {
-- 
2.43.0


From 21913eec5f8669a5adb1c0cbabecccb6c1b2698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 06/15] fix: do not panic when there are too few elements for
 all shards

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index 2b2ad2c..a015128 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -77,7 +77,7 @@ pub fn parse_elements_and_save_shards_to_disk(
     for shard in 0..num_shards {
         let output_path = get_shard_name(output_path, shard);
 
-        let begin = shard * shard_size;
+        let begin = std::cmp::min(shard * shard_size, elements.len());
         let end = std::cmp::min((shard + 1) * shard_size, elements.len());
         if show_progress {
             println!(
-- 
2.43.0


From 56e25028a94c6f0aa8df8bdb23eea77efd95465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 07/15] fix: find elements in an RwGranneBuilder with a single
 layer

Searching returned nothing until a second layer had been created.
---
 src/index/rw/mod.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index a6887e2..d9e515a 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -196,15 +196,17 @@ where
             &*elements,
         );
 
-        if let Some((entrypoint, _)) = index.search(&element, 1, 1).first() {
-            super::search_for_neighbors(current_layer.as_slice(), *entrypoint, &*elements, element, max_search)
-                .into_iter()
-                .take(num_neighbors)
-                .map(|(i, d)| (i, d.into_inner()))
-                .collect()
-        } else {
-            vec![]
+        if elements.is_empty() {
+            return vec![];
         }
+
+        // there might only be a single layer
+        let entrypoint = index.search(&element, 1, 1).first().map_or(0, |r| r.0);
+        super::search_for_neighbors(current_layer.as_slice(), entrypoint, &*elements, element, max_search)
+            .into_iter()
+            .take(num_neighbors)
+            .map(|(i, d)| (i, d.into_inner()))
+            .collect()
     }
 
     pub fn get_elements(self: &Self) -> parking_lot::RwLockReadGuard<Elements> {
-- 
2.43.0


From 4375ef755c931901740a6fb257c2ea77213c977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 08/15] fix: do not hold the write lock while inserting
 remaining elements

Taking the read lock recursively deadlocks if a writer is waiting for the lock.
---
 src/index/rw/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index d9e515a..9800529 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -106,10 +106,10 @@ where
             return vec![];
         }
 
-        // signal that writes will happen
-        let _guard = self.write_lock.read();
-
         let (mut inserted, remaining) = {
+            // signal that writes will happen
+            let _guard = self.write_lock.read();
+
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
             let mut layers = self.layers.write();
-- 
2.43.0


From d52cc01f82f766834f0d5a23b9632c4a8bcce571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 09/15] fix: do not create a new layer when there is no room
 for more elements

When several threads inserted the last elements, a superfluous layer was added.
---
 src/index/rw/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 9800529..4a9f16f 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -112,6 +112,12 @@ where
 
             // write locks are needed to append elements and potentially append a new layer
             let mut elements = self.elements.write();
+
+            // the last elements might have been inserted by another thread
+            if elements.len() >= self.max_elements {
+                return vec![];
+            }
+
             let mut layers = self.layers.write();
             let (ref mut current_layer, ref mut prev_layers) = *layers;
 
-- 
2.43.0


From 15cde227642026615e8e92f24fe583e15bf46c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 10/15] fix: do not divide by zero when quantizing zero vectors

---
 src/elements/angular_int.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elements/angular_int.rs b/src/elements/angular_int.rs
index 5adef75..a50ad8c 100644
--- a/src/elements/angular_int.rs
+++ b/src/elements/angular_int.rs
@@ -30,6 +30,7 @@ impl Vector<'static> {
             .iter()
             .map(|s| NotNan::new(s.abs()).unwrap())
             .max()
+            .filter(|max_value| max_value.into_inner() > 0.0)
             .unwrap_or_else(|| NotNan::new(MAX_QVALUE).unwrap());
 
         let mut v = Vec::with_capacity(s.len());
-- 
2.43.0


From dff778213da4e4cc39c9cd3461489e5f213e9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 11/15] fix: do not panic when reordering an index with fewer
 than two layers

---
 src/index/reorder.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index/reorder.rs b/src/index/reorder.rs
index dfe9896..ea7b8ad 100644
--- a/src/index/reorder.rs
+++ b/src/index/reorder.rs
@@ -125,8 +125,12 @@ impl<'a, Elements: ElementContainer + Permutable + Sync> Granne<'a, Elements> {
     }
 
     fn compute_order(self: &mut Self, show_progress: bool) -> Vec<usize> {
+        if self.num_layers() == 0 {
+            return Vec::new();
+        }
+
         let mut order: Vec<usize> = (0..self.layer_len(0)).collect();
-        let mut order_inv = vec![0; self.layer_len(self.num_layers() - 2)];
+        let mut order_inv = vec![0; self.layer_len(self.num_layers().saturating_sub(2))];
 
         let start_time = time::Instant::now();
         let progress_bar = if show_progress {
-- 
2.43.0


From 8618964980d12ad4b00a4968cbf1329595764c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 12/15] fix: make it possible to load empty collections of
 vectors

---
 src/slice_vector/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slice_vector/mod.rs b/src/slice_vector/mod.rs
index 93b7ffe..036f2cf 100644
--- a/src/slice_vector/mod.rs
+++ b/src/slice_vector/mod.rs
@@ -115,7 +115,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         // try to fail early
         let (data, width) = slice_vec.load();
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(data.is_empty() || width > 0 && data.len() % width == 0);
 
         Ok(slice_vec)
     }
@@ -124,7 +124,7 @@ impl<'a, T: Clone> FixedWidthSliceVector<'a, T> {
         let width = Self::load_width(buffer);
         let data = unsafe { io::load_unaligned_bytes_as(&buffer[U64_LEN..]) };
 
-        assert!(width > 0 && data.len() % width == 0);
+        assert!(data.is_empty() || width > 0 && data.len() % width == 0);
 
         Self::Memory(data, width)
     }
-- 
2.43.0


From 34a04ac6a034c5df5656fcb78048eb1eac727308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 13/15] Add cfg(granne_verif) re-exports of internals for
 verification harnesses

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index eb88c25..b19cd9c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -87,3 +87,15 @@ pub use index::rw::RwGranneBuilder;
 
 #[doc(hidden)]
 pub mod test_helper;
+
+// access to internals for verification harnesses, only compiled with `--cfg granne_verif`
+#[cfg(granne_verif)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    pub use crate::max_size_heap::MaxSizeHeap;
+    pub use crate::odd_byte_int::{FiveByteInt, ThreeByteInt};
+    pub use crate::slice_vector::{
+        CompressedVariableWidthSliceVector, FixedWidthSliceVector, MultiSetVector, Offsets, VariableWidthSliceVector,
+    };
+}
-- 
2.43.0


From 7cef4fac34ffea6e804810caedadef72281d5932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 14/15] fix: do not shrink the current layer of an
 RwGranneBuilder continuing an index with larger layers

---
 src/index/rw/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/index/rw/mod.rs b/src/index/rw/mod.rs
index 4a9f16f..0097fdb 100644
--- a/src/index/rw/mod.rs
+++ b/src/index/rw/mod.rs
@@ -136,7 +136,8 @@ where
                         prev_layers.len(),
                     );
 
-                    new_layer.resize(num_elements_in_layer, UNUSED);
+                    // an index built with another layer multiplier might have larger layers
+                    new_layer.resize(cmp::max(new_layer.len(), num_elements_in_layer), UNUSED);
                     new_layer.into()
                 };
             }
-- 
2.43.0


From 6b07b91b7f819a0a41390f1d976b9c3580531273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:35 +0000
Subject: [PATCH 15/15] fix: read all members of a gzip file when parsing
 elements

---
 src/elements/embeddings/parsing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elements/embeddings/parsing.rs b/src/elements/embeddings/parsing.rs
index a015128..7eabbc5 100644
--- a/src/elements/embeddings/parsing.rs
+++ b/src/elements/embeddings/parsing.rs
@@ -181,7 +181,7 @@ pub fn parse_elements_in_directory_or_file(
             let query_file = File::open(&part).expect(&format!("Input file: {:?} not found", &part));
 
             let elements = if part.to_str().unwrap().ends_with(".gz") {
-                let query_file = flate2::read::GzDecoder::new(query_file);
+                let query_file = flate2::read::MultiGzDecoder::new(query_file);
                 parse_file(query_file, &word_ids)
             } else {
                 parse_file(query_file, &word_ids)
-- 
2.43.0

