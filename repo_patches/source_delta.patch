From 050e67b8232b076cd0425986c540aa26cc45672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 01/34] fix: count the chunks of a grid axis as the true
 ceiling of extent over chunk size

u64_ceil_div added one before dividing, so whenever the extent was one less
than a multiple of the chunk size (or the chunk size was 1) the grid was one
chunk too long, and in_bounds accepted positions outside of the array.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1455ad4..a65ed50 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -338,7 +338,7 @@ pub trait HierarchyWriter: HierarchyReader {
 }
 
 fn u64_ceil_div(a: u64, b: u64) -> u64 {
-    (a + 1) / b + (if a % b != 0 { 1 } else { 0 })
+    a / b + (if a % b != 0 { 1 } else { 0 })
 }
 
 /// Metadata for groups.
-- 
2.43.0


From c79adb4fafc6ce5ea2d57acaecbbdeb7b4f74945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 02/34] fix: write raw data types without trailing NUL bytes

Serializing DataType::Raw emitted the whole 32 byte scratch buffer, so the
metadata of an array of raw elements could not be parsed back.
---
 src/data_type.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 54dce7a..bc4e96e 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -156,8 +156,10 @@ impl Serialize for DataType {
                 std::str::from_utf8(&buf[..3]).unwrap()
             }
             Raw { size } => {
-                write!(&mut buf[..], "r{}", size).expect("TODO");
-                std::str::from_utf8(&buf[..]).unwrap()
+                let mut unwritten = &mut buf[..];
+                write!(unwritten, "r{}", size).expect("TODO");
+                let len = 32 - unwritten.len();
+                std::str::from_utf8(&buf[..len]).unwrap()
             }
         };
         serializer.serialize_str(s)
-- 
2.43.0


From 653d923fdef401230ffcd2428cd1c6fe253b9f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 03/34] fix: report malformed data type strings as errors
 instead of panicking

---
 src/data_type.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index bc4e96e..4557115 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -209,21 +209,24 @@ impl<'de> serde::de::Visitor<'de> for DataTypeVisitor {
             }
             dtype if dtype.len() == 3 => {
                 let mut chars = dtype.chars();
-                let endian = Endian::deserial_char(chars.next().unwrap()).expect("TODO");
-                match chars.next().unwrap() {
-                    'i' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
-                        DataType::Int { size, endian }
-                    }
-                    'u' => {
-                        let size = IntSize::deserial_char(chars.next().unwrap()).unwrap();
-                        DataType::UInt { size, endian }
-                    }
-                    'f' => {
-                        let size = FloatSize::deserial_char(chars.next().unwrap()).unwrap();
-                        DataType::Float { size, endian }
-                    }
-                    _ => {
+                let endian = chars.next().and_then(Endian::deserial_char);
+                let kind = chars.next();
+                let size = chars.next();
+                let parsed = match kind {
+                    Some('i') => endian
+                        .zip(size.and_then(IntSize::deserial_char))
+                        .map(|(endian, size)| DataType::Int { size, endian }),
+                    Some('u') => endian
+                        .zip(size.and_then(IntSize::deserial_char))
+                        .map(|(endian, size)| DataType::UInt { size, endian }),
+                    Some('f') => endian
+                        .zip(size.and_then(FloatSize::deserial_char))
+                        .map(|(endian, size)| DataType::Float { size, endian }),
+                    _ => None,
+                };
+                match parsed {
+                    Some(dtype) => dtype,
+                    None => {
                         return Err(serde::de::Error::invalid_value(
                             serde::de::Unexpected::Str(value),
                             &self,
-- 
2.43.0


From 23bb09f6bbc3f06a1f1f41f40b4bf0d7d26e57b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 04/34] fix: report an extension data type without fallback as
 an error instead of panicking

---
 src/data_type.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/data_type.rs b/src/data_type.rs
index 4557115..be81e91 100644
--- a/src/data_type.rs
+++ b/src/data_type.rs
@@ -309,7 +309,13 @@ impl ExtensibleDataType {
             Extended {
                 fallback: Some(d), ..
             } => Ok(*d),
-            _ => todo!(),
+            Extended {
+                type_string,
+                fallback: None,
+                ..
+            } => Err(MetadataError::UnexpectedType(
+                type_string.as_str().into(),
+            )),
         }
     }
 }
-- 
2.43.0


From d5e355c36684c23ac5434ff114170a02c68185d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:41 +0000
Subject: [PATCH 05/34] fix: refuse array metadata whose shape and chunk shape
 are inconsistent

Metadata with mismatched ranks, empty chunk dimensions or more elements per
chunk than can be represented parsed fine and then divided by zero, panicked
or truncated the chunk on use.
---
 src/lib.rs     | 22 ++++++++++++++++++++++
 src/storage.rs |  2 ++
 2 files changed, 24 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a65ed50..02b6f7c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -429,6 +429,28 @@ impl ArrayMetadata {
         }
     }
 
+    /// Check that this metadata describes an array this library can represent,
+    /// which neither deserialization nor `new` do in full.
+    pub(crate) fn validate(&self) -> Result<(), Error> {
+        let invalid = |msg: &str| Err(Error::new(std::io::ErrorKind::InvalidData, msg.to_owned()));
+
+        let chunk_shape = self.get_chunk_shape();
+        if self.shape.len() != chunk_shape.len() {
+            return invalid("Array shape and chunk shape have different numbers of dimensions");
+        }
+        if chunk_shape.contains(&0) {
+            return invalid("Array chunk shape has an empty dimension");
+        }
+        if chunk_shape
+            .iter()
+            .try_fold(1u32, |n, &d| n.checked_mul(d))
+            .is_none()
+        {
+            return invalid("Array chunks have too many elements");
+        }
+        Ok(())
+    }
+
     pub fn get_shape(&self) -> &[u64] {
         &self.shape
     }
diff --git a/src/storage.rs b/src/storage.rs
index 887f63b..b42155e 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -167,6 +167,7 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         let value_reader = ReadableStore::get(self, &array_path.to_str().expect("TODO"))?
             .ok_or_else(|| Error::from(ErrorKind::NotFound))?;
         let metadata: ArrayMetadata = serde_json::from_reader(value_reader)?;
+        metadata.validate()?;
         // TODO: erring immediately when encountering unknown extensions, while
         // it may be more appropriate to do so only when doing chunk IO.
         if let Some(ext) = metadata.extensions.iter().find(|e| e.must_understand) {
@@ -426,6 +427,7 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // if let Some(parent) = path_buf.parent() {
         //     self.create_group(parent.to_str().expect("TODO"))?;
         // }
+        array_meta.validate()?;
         let metadata_key = self.array_metadata_key(path_name);
         if self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
             || self.exists(metadata_key.to_str().expect("TODO"))?
-- 
2.43.0


From 58477ccab4c4a7341708c79798cfa5f7086f563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:48 +0000
Subject: [PATCH 06/34] fix: interpret half precision fill values as numbers
 rather than bit patterns

---
 src/lib.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 02b6f7c..2ad8dbc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -470,7 +470,17 @@ impl ArrayMetadata {
     pub fn get_effective_fill_value<T: ReflectedType>(&self) -> Result<T, Error> {
         Ok(self
             .get_fill_value()
-            .map(|v| serde_json::from_value(v.clone()))
+            .map(|v| match (T::ZARR_TYPE, v.as_f64()) {
+                // `f16` deserializes from its bit representation.
+                (
+                    DataType::Float {
+                        size: FloatSize::B2,
+                        ..
+                    },
+                    Some(n),
+                ) => serde_json::from_value(half::f16::from_f64(n).to_bits().into()),
+                _ => serde_json::from_value(v.clone()),
+            })
             .transpose()?
             .unwrap_or_else(T::default))
     }
-- 
2.43.0


From eb873b603d444e9b071611c765424aeeba8394fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:16 +0000
Subject: [PATCH 07/34] fix: report storage errors that occur when an encoder
 or buffer is finished

Encoders write the end of their stream, and buffered writers their buffer,
when dropped, where errors were discarded (or, for lz4, caused a panic): a
chunk write could report success without having stored the chunk.
---
 src/chunk.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/chunk.rs b/src/chunk.rs
index a0e5c29..6942116 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -301,9 +301,33 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
     }
 }
 
+/// Writer that keeps the first error of the writer it wraps.
+///
+/// Encoders finish their stream on drop, and can not report errors from there.
+struct LatchWriter<'a, W: Write> {
+    inner: &'a mut W,
+    error: &'a mut Option<Error>,
+}
+
+impl<'a, W: Write> Write for LatchWriter<'a, W> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize> {
+        if self.error.is_none() {
+            *self.error = self.inner.write_all(buf).err();
+        }
+        Ok(buf.len())
+    }
+
+    fn flush(&mut self) -> Result<()> {
+        if self.error.is_none() {
+            *self.error = self.inner.flush().err();
+        }
+        Ok(())
+    }
+}
+
 /// Writes chunks to rust writers.
 pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + WriteableDataChunk> {
-    fn write_chunk(buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
+    fn write_chunk(mut buffer: W, array_meta: &ArrayMetadata, chunk: &B) -> Result<()> {
         check_array_type::<T>(array_meta)?;
 
         if chunk.get_num_elements() as usize != array_meta.get_chunk_num_elements() {
@@ -316,10 +340,20 @@ pub trait DefaultChunkWriter<T: ReflectedType, W: Write, B: DataChunk<T> + Write
                 ),
             ));
         }
-        let mut compressor = array_meta.compressor.encoder(buffer);
-        chunk.write_data(&mut compressor, array_meta)?;
+        let mut error = None;
+        {
+            let mut compressor = array_meta.compressor.encoder(LatchWriter {
+                inner: &mut buffer,
+                error: &mut error,
+            });
+            chunk.write_data(&mut compressor, array_meta)?;
+            // Encoders write the rest of their stream when dropped.
+        }
 
-        Ok(())
+        match error {
+            Some(e) => Err(e),
+            None => buffer.flush(),
+        }
     }
 }
 
-- 
2.43.0


From b22c6c1894fc38a6158441202e9d24d6e2593998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 08/34] fix: flush metadata writers so that their storage
 errors are reported

---
 src/storage.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index b42155e..4b72a7b 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -391,8 +391,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
             }
         }
         if merged != existing {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &merged)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &merged)?;
+                writer.flush()
             })?;
         }
         Ok(())
@@ -414,8 +415,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         } else if self.exists(metadata_key.to_str().expect("TODO"))? {
             Ok(())
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, &GroupMetadata::default())?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, &GroupMetadata::default())?;
+                writer.flush()
             })
         }
     }
@@ -437,8 +439,9 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
                 "Node already exists at array path",
             ))
         } else {
-            self.set(metadata_key.to_str().expect("TODO"), |writer| {
-                Ok(serde_json::to_writer(writer, array_meta)?)
+            self.set(metadata_key.to_str().expect("TODO"), |mut writer| {
+                serde_json::to_writer(&mut writer, array_meta)?;
+                writer.flush()
             })
         }
     }
-- 
2.43.0


From 0c6ca11b526322b1021fa7a9cb7040f9b99ddadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:39 +0000
Subject: [PATCH 09/34] fix: verify codec checksums when reading chunks

Reading stopped at the last element of a chunk and thus before the trailer in
which codecs store their checksum, so altered chunks were read as data.
---
 src/chunk.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/chunk.rs b/src/chunk.rs
index 6942116..e001790 100644
--- a/src/chunk.rs
+++ b/src/chunk.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    copy,
+    sink,
     Error,
     ErrorKind,
     Read,
@@ -281,6 +283,8 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
             T::create_data_chunk(&grid_position, array_meta.get_chunk_num_elements() as u32);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
+        // Codecs verify checksums only at the end of their stream.
+        copy(&mut decompressed, &mut sink())?;
 
         Ok(chunk)
     }
@@ -296,6 +300,8 @@ pub trait DefaultChunkReader<T: ReflectedType, R: Read> {
         chunk.reinitialize(&grid_position, array_meta.get_chunk_num_elements() as u32);
         let mut decompressed = array_meta.compressor.decoder(buffer);
         chunk.read_data(&mut decompressed, array_meta)?;
+        // Codecs verify checksums only at the end of their stream.
+        copy(&mut decompressed, &mut sink())?;
 
         Ok(())
     }
-- 
2.43.0


From bde8b54c5c02503a30b6d9e883b6e1daba89bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:39 +0000
Subject: [PATCH 10/34] fix: do not panic on regions outside of an array

A region that does not overlap the array, or does so in no cell, still
selected chunks when an empty dimension started inside of one, and slicing by
it panicked; offsets near the maximum coordinate overflowed.
---
 src/ndarray.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index 1a05c34..f731a1d 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -79,7 +79,8 @@ impl BoundingBox {
             .zip(other.offset.iter())
             .for_each(|(((s, o), os), oo)| {
                 let new_o = std::cmp::max(*oo, *o);
-                *s = std::cmp::min(*s + *o, *oo + *os).saturating_sub(new_o);
+                *s = std::cmp::min(s.saturating_add(*o), oo.saturating_add(*os))
+                    .saturating_sub(new_o);
                 *o = new_o;
             });
     }
@@ -393,7 +394,7 @@ impl ArrayMetadata {
             .get_shape()
             .iter()
             .zip(self.get_chunk_shape().iter())
-            .map(|(&d, &s)| (d + u64::from(s) - 1) / u64::from(s))
+            .map(|(&d, &s)| crate::u64_ceil_div(d, u64::from(s)))
             .collect::<GridCoord>();
 
         CoordIterator::new(&coord_ceil)
@@ -405,6 +406,7 @@ impl ArrayMetadata {
     ) -> impl Iterator<Item = Vec<u64>> + ExactSizeIterator {
         let mut bbox = self.get_bounds();
         bbox.intersect(unbounded_bbox);
+        let is_empty = bbox.is_empty();
         let floor_coord: GridCoord = bbox
             .offset
             .iter()
@@ -416,10 +418,15 @@ impl ArrayMetadata {
             .iter()
             .zip(&bbox.shape)
             .zip(self.chunk_grid.chunk_shape.iter().cloned().map(u64::from))
-            .map(|((&o, &s), cs)| (o + s + cs - 1) / cs)
+            .map(|((&o, &s), cs)| crate::u64_ceil_div(o + s, cs))
             .collect();
 
-        CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
+        if is_empty {
+            // An empty dimension may still start in the middle of a chunk.
+            CoordIterator::floor_ceil(&floor_coord, &floor_coord)
+        } else {
+            CoordIterator::floor_ceil(&floor_coord, &ceil_coord)
+        }
     }
 
     pub fn get_bounds(&self) -> BoundingBox {
-- 
2.43.0


From 886c079f6e06066c455a15f6e54c7bae569eac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 11/34] fix: iterate over the chunk of zero-dimensional arrays

Coordinate iterators yielded nothing for arrays of rank zero, so that region
reads and writes silently did nothing. They also miscounted after their end.
---
 src/ndarray.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index f731a1d..d936213 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -500,7 +500,9 @@ impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
         CoordIterator {
             iter: ceil.iter().map(|&c| 0..c).multi_cartesian_product(),
             accumulator: 0,
-            total_coords: ceil.iter().product::<u64>() as usize,
+            total_coords: ceil
+                .iter()
+                .fold(1, |n: usize, &c| n.saturating_mul(c as usize)),
         }
     }
 
@@ -509,7 +511,7 @@ impl CoordIterator<itertools::MultiProduct<std::ops::Range<u64>>> {
             .iter()
             .zip(ceil.iter())
             .map(|(&f, &c)| c.saturating_sub(f))
-            .product::<u64>() as usize;
+            .fold(1, |n: usize, c| n.saturating_mul(c as usize));
         CoordIterator {
             iter: floor
                 .iter()
@@ -526,8 +528,13 @@ impl<T: Iterator<Item = Vec<u64>>> Iterator for CoordIterator<T> {
     type Item = Vec<u64>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.accumulator == self.total_coords {
+            return None;
+        }
         self.accumulator += 1;
-        self.iter.next()
+        // The cartesian product of no ranges is one empty coordinate, but
+        // `MultiProduct` yields nothing.
+        self.iter.next().or_else(|| Some(Vec::new()))
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-- 
2.43.0


From 61e99ae1881342e26ec8cb46bcda9e14a42b6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 12/34] fix: reject region writes whose offset has the wrong
 number of dimensions

---
 src/ndarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndarray.rs b/src/ndarray.rs
index d936213..d25e29d 100644
--- a/src/ndarray.rs
+++ b/src/ndarray.rs
@@ -288,7 +288,7 @@ pub trait ZarrNdarrayWriter: HierarchyWriter {
         A: ndarray::AsArray<'a, T, ndarray::Dim<ndarray::IxDynImpl>>,
     {
         let array = array.into();
-        if array.ndim() != array_meta.get_ndim() {
+        if offset.len() != array_meta.get_ndim() || array.ndim() != array_meta.get_ndim() {
             return Err(Error::new(
                 ErrorKind::InvalidData,
                 "Wrong number of dimensions",
-- 
2.43.0


From c59069c9e44986133f018572264f8079e62ce5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 13/34] fix: reject paths that leave the hierarchy's directory
 part way

Only the final nesting level of a path was checked, so that '..' was
rejected but '../sibling' was not.
---
 src/store/filesystem.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index de08f82..3fc2b6f 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -177,16 +177,17 @@ impl FilesystemHierarchy {
                 Component::ParentDir => nest -= 1,
                 Component::Normal(_) => nest += 1,
             };
-        }
 
-        if nest < 0 {
-            Err(Error::new(
-                ErrorKind::NotFound,
-                "Path name is outside this Zarr filesystem",
-            ))
-        } else {
-            Ok(self.base_path.join(unrooted_path))
+            // Paths must not leave the base path even to return to it later.
+            if nest < 0 {
+                return Err(Error::new(
+                    ErrorKind::NotFound,
+                    "Path name is outside this Zarr filesystem",
+                ));
+            }
         }
+
+        Ok(self.base_path.join(unrooted_path))
     }
 }
 
-- 
2.43.0


From d35500e21e101c636a18e4533af6f55303e55af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 14/34] fix: replace stored values atomically instead of
 overwriting them in place

set() truncated the stored file before writing the new value, so an error, a
full disk or a killed process lost the previous value and left a partial one.
Readers that opened the file before the writer locked it, and processes that
open a file that is being created, saw an empty or partial value.
---
 src/store/filesystem.rs | 62 +++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 3fc2b6f..e40cdfa 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -191,6 +191,46 @@ impl FilesystemHierarchy {
     }
 }
 
+/// Name of the temporary files in which values are written before they
+/// replace those stored. Crashed processes may leave such files behind.
+fn temp_file_name(n: usize) -> String {
+    format!(".zarr-{}-{}.tmp", std::process::id(), n)
+}
+
+fn is_temp_file_name(name: &str) -> bool {
+    name.starts_with(".zarr-") && name.ends_with(".tmp")
+}
+
+/// Atomically replace a file, or leave it as it was if `value` fails.
+fn replace_file<F: FnOnce(BufWriter<File>) -> Result<()>>(target: PathBuf, value: F) -> Result<()> {
+    // Replace the file a symbolic link refers to rather than the link.
+    let target = match fs::symlink_metadata(&target) {
+        Ok(ref m) if m.file_type().is_symlink() => fs::canonicalize(&target)?,
+        Err(e) if e.kind() != ErrorKind::NotFound => return Err(e),
+        _ => target,
+    };
+
+    let mut n = 0;
+    let (temp, file) = loop {
+        let temp = target.with_file_name(temp_file_name(n));
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp)
+        {
+            Ok(file) => break (temp, file),
+            Err(ref e) if e.kind() == ErrorKind::AlreadyExists => n += 1,
+            Err(e) => return Err(e),
+        }
+    };
+
+    let result = value(BufWriter::new(file)).and_then(|()| fs::rename(&temp, &target));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp);
+    }
+    result
+}
+
 impl ReadableStore for FilesystemHierarchy {
     type GetReader = BufReader<File>;
 
@@ -244,6 +284,9 @@ impl ListableStore for FilesystemHierarchy {
 
         for (key, t) in entries {
             if t.is_file() {
+                if is_temp_file_name(key.rsplit('/').next().unwrap_or("")) {
+                    continue;
+                }
                 keys.push(key);
             } else {
                 // t.is_dir() == true, because symlinks were followed.
@@ -260,24 +303,19 @@ impl WriteableStore for FilesystemHierarchy {
 
     fn set<F: FnOnce(Self::SetWriter) -> Result<()>>(&self, key: &str, value: F) -> Result<()> {
         let target = self.get_path(key)?;
+        if target == self.base_path {
+            return Err(Error::new(
+                ErrorKind::InvalidInput,
+                "Key is that of the hierarchy's directory",
+            ));
+        }
         if let Some(parent) = target.parent() {
             if !parent.exists() {
                 fs::create_dir_all(parent)?;
             }
         }
 
-        let file = fs::OpenOptions::new()
-            .read(true)
-            .write(true)
-            .create(true)
-            .open(target)?;
-        file.lock_exclusive()?;
-        // Truncate after the lock is acquired, rather than on opening.
-        file.set_len(0)?;
-
-        let writer = BufWriter::new(file);
-
-        value(writer)
+        replace_file(target, value)
     }
 
     fn erase(&self, key: &str) -> Result<bool> {
-- 
2.43.0


From 18d6f6b6d4ecbfebcfcb89e9c8509bc9ae4db1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:36 +0000
Subject: [PATCH 15/34] fix: create the entry point of a hierarchy atomically

Processes that opened a hierarchy while another created it, or after a creator
was killed, found an incomplete entry point and failed. The existence check
also took any error for absence, and could so replace an existing entry point,
and errors of the final write were lost.
---
 src/store/filesystem.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index e40cdfa..6c439c5 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -10,6 +10,7 @@ use std::io::{
     Error,
     ErrorKind,
     Result,
+    Write,
 };
 use std::path::PathBuf;
 
@@ -85,21 +86,17 @@ impl FilesystemHierarchy {
         let base_path = PathBuf::from(base_path.as_ref());
         let entry_point_path = base_path.join(crate::ENTRY_POINT_KEY);
 
-        let entry_point_metadata = if entry_point_path.exists() {
-            Self::read_entry_point_metadata(&base_path)?
-        } else {
-            fs::create_dir_all(&base_path)?;
-            let metadata = EntryPointMetadata::default();
-            let file = fs::OpenOptions::new()
-                .read(true)
-                .write(true)
-                .create(true)
-                .open(entry_point_path)?;
-            file.lock_exclusive()?;
-
-            let writer = BufWriter::new(file);
-            serde_json::to_writer(writer, &metadata)?;
-            metadata
+        let entry_point_metadata = match Self::read_entry_point_metadata(&base_path) {
+            Err(ref e) if e.kind() == ErrorKind::NotFound => {
+                fs::create_dir_all(&base_path)?;
+                let metadata = EntryPointMetadata::default();
+                replace_file(entry_point_path, |mut writer| {
+                    serde_json::to_writer(&mut writer, &metadata)?;
+                    writer.flush()
+                })?;
+                metadata
+            }
+            result => result?,
         };
 
         let reader = FilesystemHierarchy {
-- 
2.43.0


From cf6f58e3a563dabb0a4a3d42cb7cf5114a51d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:05 +0000
Subject: [PATCH 16/34] fix: do not take storage errors for the absence of a
 key when reading

Also a key removed between the check for its existence and its opening is
absent, rather than an error.
---
 src/store/filesystem.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 6c439c5..6f0e9ab 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -188,6 +188,23 @@ impl FilesystemHierarchy {
     }
 }
 
+/// Whether an error means that there is no file at a path.
+fn is_absence(e: &Error) -> bool {
+    // A parent of the path may also be a file.
+    e.kind() == ErrorKind::NotFound || e.kind() == ErrorKind::NotADirectory
+}
+
+/// Get file metadata, or `None` if there is no file.
+///
+/// Unlike `Path::exists` and similar this does not take errors for absence.
+fn file_metadata<P: AsRef<std::path::Path>>(path: P) -> Result<Option<fs::Metadata>> {
+    match fs::metadata(path) {
+        Ok(metadata) => Ok(Some(metadata)),
+        Err(ref e) if is_absence(e) => Ok(None),
+        Err(e) => Err(e),
+    }
+}
+
 /// Name of the temporary files in which values are written before they
 /// replace those stored. Crashed processes may leave such files behind.
 fn temp_file_name(n: usize) -> String {
@@ -233,13 +250,17 @@ impl ReadableStore for FilesystemHierarchy {
 
     fn exists(&self, key: &str) -> Result<bool> {
         let target = self.get_path(key)?;
-        Ok(target.is_file())
+        Ok(file_metadata(target)?.map_or(false, |m| m.is_file()))
     }
 
     fn get(&self, key: &str) -> Result<Option<Self::GetReader>> {
         let target = self.get_path(key)?;
-        if target.is_file() {
-            let file = File::open(target)?;
+        if file_metadata(&target)?.map_or(false, |m| m.is_file()) {
+            let file = match File::open(target) {
+                // The file may have been removed in the meantime.
+                Err(ref e) if is_absence(e) => return Ok(None),
+                result => result?,
+            };
             file.lock_shared()?;
             Ok(Some(BufReader::new(file)))
         } else {
-- 
2.43.0


From 9917c7f2a61053e1d84720c8ce8cc0e7bcd5a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 17/34] fix: do not take storage errors for the absence of a
 key when erasing

Removal succeeded without removing anything if the key could not be examined,
and failed if another process removed the same key at the same time.
---
 src/store/filesystem.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 6f0e9ab..ed2f95d 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -205,6 +205,18 @@ fn file_metadata<P: AsRef<std::path::Path>>(path: P) -> Result<Option<fs::Metada
     }
 }
 
+/// Remove a file, if there is one, once it is not locked by others.
+fn remove_file(path: &std::path::Path) -> Result<()> {
+    let result = File::open(path).and_then(|file| {
+        file.lock_exclusive()?;
+        fs::remove_file(path)
+    });
+    match result {
+        Err(ref e) if is_absence(e) => Ok(()),
+        result => result,
+    }
+}
+
 /// Name of the temporary files in which values are written before they
 /// replace those stored. Crashed processes may leave such files behind.
 fn temp_file_name(n: usize) -> String {
@@ -339,33 +351,30 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase(&self, key: &str) -> Result<bool> {
         let path = self.get_path(key)?;
 
-        if path.exists() {
-            let file = File::open(&path)?;
-            file.lock_exclusive()?;
-            fs::remove_file(&path)?;
-        }
+        remove_file(&path)?;
 
-        Ok(!path.exists())
+        Ok(file_metadata(&path)?.is_none())
     }
 
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
-        if path.exists() {
-            for entry in WalkDir::new(&path).contents_first(true) {
-                let entry = entry?;
-
+        for entry in WalkDir::new(&path).contents_first(true) {
+            let result = entry.map_err(Error::from).and_then(|entry| {
                 if entry.file_type().is_dir() {
-                    fs::remove_dir(entry.path())?;
+                    fs::remove_dir(entry.path())
                 } else {
-                    let file = File::open(entry.path())?;
-                    file.lock_exclusive()?;
-                    fs::remove_file(entry.path())?;
+                    remove_file(entry.path())
                 }
+            });
+            // Entries may be absent or concurrently removed.
+            match result {
+                Err(ref e) if is_absence(e) => (),
+                result => result?,
             }
         }
 
-        Ok(!path.exists())
+        Ok(file_metadata(&path)?.is_none())
     }
 }
 
-- 
2.43.0


From 2cf8f7a85e76ee7a88856f74bdf8a634b857a38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 18/34] fix: list directories without dropping errors or
 panicking

Entries that could not be examined were silently left out of listings, names
that are not unicode caused a panic, and listing a prefix without keys, such
as that of a group without members, failed. Keys and prefixes listed for a
prefix without trailing slash lacked the separator, so that list_prefix went
astray.
---
 src/store/filesystem.rs | 44 ++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index ed2f95d..72f7323 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -299,24 +299,36 @@ impl ListableStore for FilesystemHierarchy {
         let mut prefixes = vec![];
         let target = self.get_path(prefix)?;
 
-        // TODO: shouldn't do this in a closure to not equivocate errors with Nones.
-        let entries = fs::read_dir(target)?.filter_map(|e| {
-            e.and_then(|file| {
-                fs::metadata(file.path()).map(|f| f.file_type()).map(|t| {
-                    (
-                        format!("{}{}", prefix, file.file_name().to_str().unwrap()),
-                        t,
-                    )
-                })
-            })
-            .ok()
-        });
+        let entries = match fs::read_dir(target) {
+            // There are no keys with this prefix.
+            Err(ref e) if is_absence(e) => return Ok((keys, prefixes)),
+            result => result?,
+        };
+
+        let separator = if prefix.is_empty() || prefix.ends_with('/') {
+            ""
+        } else {
+            "/"
+        };
+
+        for entry in entries {
+            let entry = entry?;
+            let t = match file_metadata(entry.path())? {
+                Some(metadata) => metadata.file_type(),
+                // The entry may have been removed in the meantime.
+                None => continue,
+            };
+            let name = match entry.file_name().into_string() {
+                Ok(name) => name,
+                // Keys are unicode, so this file is none.
+                Err(_) => continue,
+            };
+            if t.is_file() && is_temp_file_name(&name) {
+                continue;
+            }
+            let key = format!("{}{}{}", prefix, separator, name);
 
-        for (key, t) in entries {
             if t.is_file() {
-                if is_temp_file_name(key.rsplit('/').next().unwrap_or("")) {
-                    continue;
-                }
                 keys.push(key);
             } else {
                 // t.is_dir() == true, because symlinks were followed.
-- 
2.43.0


From 59ff2e69a0851d37afb3650bcea1aca60ebd99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 19/34] fix: list the names of nodes

Listing removed the metadata key suffix twice, and so cut off or panicked on
the names of arrays and groups, and asked the store for keys with the group's
name as prefix rather than for those of its members.
---
 src/storage.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index 4b72a7b..d6da0c7 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -311,33 +311,26 @@ impl<S: ListableStore + Hierarchy> HierarchyLister for S {
     fn list_nodes(&self, prefix_path: &str) -> Result<Vec<String>, Error> {
         // TODO: Inelegant.
 
-        let key_prefix = format!(
+        let mut key_prefix = format!(
             "{}/{}",
             crate::META_ROOT_PATH,
             crate::canonicalize_path(prefix_path)
         );
+        if !key_prefix.ends_with('/') {
+            key_prefix.push('/');
+        }
         let (mut keys, mut prefixes) = self.list_dir(&key_prefix)?;
 
-        // Find array and group metadata keys.
-        keys.retain(|k| k.ends_with(&self.get_entry_point_metadata().metadata_key_suffix));
-        keys.iter_mut().for_each(|k| {
-            k.truncate(k.len() - self.get_entry_point_metadata().metadata_key_suffix.len())
-        });
-        keys.retain(|k| {
-            k.ends_with(&crate::ARRAY_METADATA_KEY_EXT)
-                || k.ends_with(&crate::GROUP_METADATA_KEY_EXT)
-        });
-        assert_eq!(
-            crate::ARRAY_METADATA_KEY_EXT.len(),
-            crate::GROUP_METADATA_KEY_EXT.len()
-        );
-
-        // Remove metadata extensions from keys to partially convert to node paths.
-        let suffix_len = self.get_entry_point_metadata().metadata_key_suffix.len()
-            + crate::ARRAY_METADATA_KEY_EXT.len()
-            + 1;
+        // Find array and group metadata keys, and remove their metadata
+        // extensions to partially convert them to node paths.
+        let key_suffix = &self.get_entry_point_metadata().metadata_key_suffix;
+        let key_suffix = key_suffix.strip_prefix('.').unwrap_or(key_suffix);
+        let array_suffix = format!(".{}.{}", crate::ARRAY_METADATA_KEY_EXT, key_suffix);
+        let group_suffix = format!(".{}.{}", crate::GROUP_METADATA_KEY_EXT, key_suffix);
+        keys.retain(|k| k.ends_with(&array_suffix) || k.ends_with(&group_suffix));
         keys.iter_mut()
-            .for_each(|k| k.truncate(k.len() - suffix_len));
+            .for_each(|k| k.truncate(k.len() - array_suffix.len()));
+        assert_eq!(array_suffix.len(), group_suffix.len());
 
         // Add potential implicit groups.
         prefixes
-- 
2.43.0


From d9c9eb6e38815c39a6266f7baa40b26d59df1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 20/34] fix: remove the metadata of descendants along with a
 node

Removing a group left its members in existence, and removing everything left
all nodes but the root. Data is now also erased by a prefix that can not match
siblings in stores whose prefixes are not directories.
---
 src/storage.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d6da0c7..e60946a 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -443,11 +443,17 @@ impl<S: ReadableStore + WriteableStore + Hierarchy> HierarchyWriter for S {
         // TODO: needless allocs
         let metadata_key = self.group_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        let mut metadata_key = self.array_metadata_key(path_name);
+        let metadata_key = self.array_metadata_key(path_name);
         self.erase(metadata_key.to_str().expect("TODO"))?;
-        metadata_key.set_extension("");
-        metadata_key.set_extension("");
-        self.erase_prefix(self.data_path_key(path_name).to_str().expect("TODO"))?;
+        // Remove the metadata of descendants. Prefixes end with a separator
+        // to not match other nodes whose name starts with the same string.
+        for root in &[crate::META_ROOT_PATH, crate::DATA_ROOT_PATH] {
+            let mut key_prefix = format!("{}/{}", root, canonicalize_path(path_name));
+            if !key_prefix.ends_with('/') {
+                key_prefix.push('/');
+            }
+            self.erase_prefix(&key_prefix)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From f8c7f4caed759d6b00cdb2e897ec7c8ef63af1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:50 +0000
Subject: [PATCH 21/34] fix: do not take errors reading an array's metadata for
 its absence

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2ad8dbc..b14f738 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -227,7 +227,13 @@ pub trait HierarchyReader: Hierarchy {
 
     /// Test whether an array exists.
     fn array_exists(&self, path_name: &str) -> Result<bool, Error> {
-        Ok(self.exists(path_name)? && self.get_array_metadata(path_name).is_ok())
+        if !self.exists(path_name)? {
+            return Ok(false);
+        }
+        match self.get_array_metadata(path_name) {
+            Err(ref e) if e.kind() == std::io::ErrorKind::NotFound => Ok(false),
+            result => result.map(|_| true),
+        }
     }
 
     /// Get a URI string for a data chunk.
-- 
2.43.0


From 824e0fa6db184fb97680608e7595bf2ff2088058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:57 +0000
Subject: [PATCH 22/34] fix: do not take a metadata document's own key for a
 node

The probe for implicit groups tested whether a file exists at the node's path,
which is never true of groups but is of paths like 'foo.array.json'.
---
 src/storage.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index e60946a..1774290 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -183,14 +183,7 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
         // TODO: should follow spec more closely by using `list_dir` for implicit groups.
         Ok(
             self.exists(self.array_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?
-                || self.exists(
-                    self.group_metadata_key(path_name)
-                        .with_extension("")
-                        .with_extension("")
-                        .to_str()
-                        .expect("TODO"),
-                )?,
+                || self.exists(self.group_metadata_key(path_name).to_str().expect("TODO"))?,
         )
     }
 
-- 
2.43.0


From 7b86f1ce5f9c4ef460fa51837197ee44c58801d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:43 +0000
Subject: [PATCH 23/34] fix: do not accept entry points without a version

---
 src/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage.rs b/src/storage.rs
index 1774290..97e7ddf 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -148,6 +148,8 @@ impl<S: ReadableStore + Hierarchy> HierarchyReader for S {
             .zarr_format
             .rsplit('/')
             .next()
+            // An empty version would match any.
+            .filter(|v| !v.trim().is_empty())
             .ok_or_else(|| {
                 Error::new(
                     ErrorKind::InvalidData,
-- 
2.43.0


From 59b0f836aef9b003172b94da169bbed9ddedd55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 24/34] fix: report incomplete lz4 streams

The decoder does not treat the end of its source within a stream as an error,
so a chunk whose end, and thus checksum, was damaged was read as data.
---
 src/compression/lz.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz.rs b/src/compression/lz.rs
index e327c09..79e4419 100644
--- a/src/compression/lz.rs
+++ b/src/compression/lz.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -42,6 +44,29 @@ impl<W: Write> Drop for Wrapper<W> {
     }
 }
 
+// `Decoder` takes the end of its source for that of the stream, even where
+// the rest of the stream, such as its checksum, is missing.
+struct DecoderWrapper<R: Read> {
+    s: Option<Decoder<R>>,
+}
+
+impl<R: Read> Read for DecoderWrapper<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
+        let n = match self.s.as_mut() {
+            Some(s) => s.read(buffer)?,
+            None => 0,
+        };
+        if n == 0 && !buffer.is_empty() {
+            if let Some(s) = self.s.take() {
+                s.finish()
+                    .1
+                    .map_err(|e| Error::new(ErrorKind::UnexpectedEof, e))?;
+            }
+        }
+        Ok(n)
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -79,7 +104,9 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(Decoder::new(r).expect("TODO: LZ4 returns a result here"))
+        Box::new(DecoderWrapper {
+            s: Some(Decoder::new(r).expect("TODO: LZ4 returns a result here")),
+        })
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From 09a9a073fdc93537c4beaed9fea0861fbf1a21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 25/34] fix: do not panic on xz presets outside of their range

---
 src/compression/xz.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/compression/xz.rs b/src/compression/xz.rs
index d2e13b5..af7d148 100644
--- a/src/compression/xz.rs
+++ b/src/compression/xz.rs
@@ -31,14 +31,24 @@ impl Default for XzCompression {
     }
 }
 
+impl XzCompression {
+    /// Use the default preset if the configured preset is not in [0, 9].
+    fn get_effective_preset(&self) -> u32 {
+        if self.preset < 0 || self.preset > 9 {
+            default_xz_preset() as u32
+        } else {
+            self.preset as u32
+        }
+    }
+}
+
 impl Compression for XzCompression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
         Box::new(XzDecoder::new(r))
     }
 
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
-        // TODO: check that preset is non-negative.s
-        Box::new(XzEncoder::new(w, self.preset as u32))
+        Box::new(XzEncoder::new(w, self.get_effective_preset()))
     }
 }
 
-- 
2.43.0


From 7a3d74645a28e0620d12460e456bbe8d82b6a111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 26/34] fix: do not panic on bzip2 block sizes outside of their
 range

---
 src/compression/bzip.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compression/bzip.rs b/src/compression/bzip.rs
index f2741d4..c3f742d 100644
--- a/src/compression/bzip.rs
+++ b/src/compression/bzip.rs
@@ -32,6 +32,17 @@ impl Default for Bzip2Compression {
     }
 }
 
+impl Bzip2Compression {
+    /// Use the default block size if the configured one is not in [1, 9].
+    fn get_effective_block_size(&self) -> u32 {
+        if self.block_size < 1 || self.block_size > 9 {
+            u32::from(default_bzip_block_size())
+        } else {
+            u32::from(self.block_size)
+        }
+    }
+}
+
 impl Compression for Bzip2Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
         Box::new(BzDecoder::new(r))
@@ -40,7 +51,7 @@ impl Compression for Bzip2Compression {
     fn encoder<'a, W: Write + 'a>(&self, w: W) -> Box<dyn Write + 'a> {
         Box::new(BzEncoder::new(
             w,
-            BzCompression::new(u32::from(self.block_size)),
+            BzCompression::new(self.get_effective_block_size()),
         ))
     }
 }
-- 
2.43.0


From be073ccfa53e6a02cb30087051af36a4cc8006ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:30 +0000
Subject: [PATCH 27/34] fix: remove symbolic links without following them

---
 src/store/filesystem.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index 72f7323..a4bb776 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -207,7 +207,12 @@ fn file_metadata<P: AsRef<std::path::Path>>(path: P) -> Result<Option<fs::Metada
 
 /// Remove a file, if there is one, once it is not locked by others.
 fn remove_file(path: &std::path::Path) -> Result<()> {
-    let result = File::open(path).and_then(|file| {
+    let result = fs::symlink_metadata(path).and_then(|metadata| {
+        // A symbolic link may refer to nothing, or to what is not ours.
+        if metadata.file_type().is_symlink() {
+            return fs::remove_file(path);
+        }
+        let file = File::open(path)?;
         file.lock_exclusive()?;
         fs::remove_file(path)
     });
-- 
2.43.0


From 9b808a7e7ae5def022898bbc5fe9559f7e2d9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:02 +0000
Subject: [PATCH 28/34] fix: hide only temporary files from listings

A node document in a hierarchy whose metadata key suffix is `.tmp` was
taken for one if the node's name starts with `.zarr-`.
---
 src/store/filesystem.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index a4bb776..fb272d7 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -229,7 +229,10 @@ fn temp_file_name(n: usize) -> String {
 }
 
 fn is_temp_file_name(name: &str) -> bool {
-    name.starts_with(".zarr-") && name.ends_with(".tmp")
+    let is_number = |n: &str| !n.is_empty() && n.bytes().all(|b| b.is_ascii_digit());
+    name.strip_prefix(".zarr-")
+        .and_then(|n| n.strip_suffix(".tmp"))
+        .map_or(false, |n| n.splitn(2, '-').filter(|n| is_number(n)).count() == 2)
 }
 
 /// Atomically replace a file, or leave it as it was if `value` fails.
-- 
2.43.0


From 07f1811fae5510ab310edad945d9c642b51d247a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:03 +0000
Subject: [PATCH 29/34] fix: erasing a prefix that ends in a separator keeps
 the file at that path

Removing a path like `foo.group.json` removed the metadata of group `foo`.
---
 src/store/filesystem.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index fb272d7..ce66de6 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -379,6 +379,11 @@ impl WriteableStore for FilesystemHierarchy {
     fn erase_prefix(&self, key_prefix: &str) -> Result<bool> {
         let path = self.get_path(key_prefix)?;
 
+        // The key of a file does not start with its path and a separator.
+        if key_prefix.ends_with('/') && file_metadata(&path)?.map_or(false, |m| m.is_file()) {
+            return Ok(true);
+        }
+
         for entry in WalkDir::new(&path).contents_first(true) {
             let result = entry.map_err(Error::from).and_then(|entry| {
                 if entry.file_type().is_dir() {
-- 
2.43.0


From aa4509412b3522abd0c327d303637285dc5c21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:05 +0000
Subject: [PATCH 30/34] fix: get_attributes does not report a failed lookup as
 a missing path

---
 src/store/filesystem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/store/filesystem.rs b/src/store/filesystem.rs
index ce66de6..f8050cc 100644
--- a/src/store/filesystem.rs
+++ b/src/store/filesystem.rs
@@ -116,7 +116,7 @@ impl FilesystemHierarchy {
     pub fn get_attributes(&self, key: &str) -> Result<Value> {
         // TODO: no longer used, but should be adapted for getting array/group user attributes
         let path = self.get_path(key)?;
-        if path.exists() && path.is_file() {
+        if file_metadata(&path)?.map_or(false, |m| m.is_file()) {
             let file = File::open(path)?;
             file.lock_shared()?;
             let reader = BufReader::new(file);
@@ -127,7 +127,7 @@ impl FilesystemHierarchy {
             path.set_extension("");
             path.set_extension("");
             // Check for implicit group.
-            if path.exists() && path.is_file() {
+            if file_metadata(&path)?.map_or(false, |m| m.is_file()) {
                 Ok(json!({}))
             } else {
                 Err(Error::new(ErrorKind::NotFound, "Path does not exist"))
-- 
2.43.0


From a43d33cd3bcbb124e82a2d42d9a032a6720e30d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:11 +0000
Subject: [PATCH 31/34] fix: invalid LZ4 frame headers are errors with lz_pure,
 rather than panics

---
 src/compression/lz_pure.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index e896e0c..67a4c03 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -1,4 +1,6 @@
 use std::io::{
+    Error,
+    ErrorKind,
     Read,
     Result,
     Write,
@@ -6,6 +8,7 @@ use std::io::{
 
 use lz_fear::framed::{
     CompressionSettings,
+    LZ4FrameIoReader,
     LZ4FrameReader,
 };
 use serde::{
@@ -32,6 +35,29 @@ impl<W: Write> Write for Wrapper<W> {
     }
 }
 
+// `LZ4FrameReader` reads the header of the frame when constructed, while
+// errors can only be reported from reading.
+enum DecoderWrapper<R: Read> {
+    Unread(R),
+    Reader(Box<LZ4FrameIoReader<'static, R>>),
+    Failed,
+}
+
+impl<R: Read> Read for DecoderWrapper<R> {
+    fn read(&mut self, buffer: &mut [u8]) -> Result<usize> {
+        if let DecoderWrapper::Unread(_) = self {
+            if let DecoderWrapper::Unread(r) = std::mem::replace(self, DecoderWrapper::Failed) {
+                let reader = LZ4FrameReader::new(r).map_err(Error::from)?;
+                *self = DecoderWrapper::Reader(Box::new(reader.into_read()));
+            }
+        }
+        match self {
+            DecoderWrapper::Reader(reader) => reader.read(buffer),
+            _ => Err(Error::new(ErrorKind::InvalidData, "Invalid LZ4 frame")),
+        }
+    }
+}
+
 #[derive(Clone, Serialize, Deserialize, PartialEq, Debug)]
 #[serde(rename_all = "camelCase")]
 pub struct Lz4Compression {
@@ -53,11 +79,7 @@ impl Default for Lz4Compression {
 
 impl Compression for Lz4Compression {
     fn decoder<'a, R: Read + 'a>(&self, r: R) -> Box<dyn Read + 'a> {
-        Box::new(
-            LZ4FrameReader::new(r)
-                .expect("TODO: LZ4 returns a result here")
-                .into_read(),
-        )
+        Box::new(DecoderWrapper::Unread(r))
     }
 
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
-- 
2.43.0


From dfa9c4f1aac5fc0e6e708824172561ea04c09265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:11 +0000
Subject: [PATCH 32/34] fix: lz_pure writes chunks as one LZ4 frame, rather
 than one for each write

---
 src/compression/lz_pure.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index 67a4c03..5afb4e3 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -18,16 +18,18 @@ use serde::{
 
 use super::Compression;
 
+// `CompressionSettings` can only compress whole frames, so the data of the
+// frame is collected and compressed on drop.
 struct Wrapper<W: Write> {
     writer: W,
     settings: CompressionSettings<'static>,
+    data: Vec<u8>,
 }
 
 impl<W: Write> Write for Wrapper<W> {
     fn write(&mut self, buffer: &[u8]) -> Result<usize> {
-        let len = buffer.len();
-        self.settings.compress(buffer, &mut self.writer)?;
-        Ok(len)
+        self.data.extend_from_slice(buffer);
+        Ok(buffer.len())
     }
 
     fn flush(&mut self) -> Result<()> {
@@ -35,6 +37,14 @@ impl<W: Write> Write for Wrapper<W> {
     }
 }
 
+impl<W: Write> Drop for Wrapper<W> {
+    fn drop(&mut self) {
+        self.settings
+            .compress(&self.data[..], &mut self.writer)
+            .unwrap();
+    }
+}
+
 // `LZ4FrameReader` reads the header of the frame when constructed, while
 // errors can only be reported from reading.
 enum DecoderWrapper<R: Read> {
@@ -87,7 +97,11 @@ impl Compression for Lz4Compression {
         settings
             .block_size(self.block_size as usize)
             .independent_blocks(true);
-        Box::new(Wrapper { writer, settings })
+        Box::new(Wrapper {
+            writer,
+            settings,
+            data: Vec::new(),
+        })
     }
 }
 
-- 
2.43.0


From 5ff8a4aaf3e60813b969024aec9913bb3f11cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:11 +0000
Subject: [PATCH 33/34] fix: lz_pure accepts any block size, as lz does

---
 src/compression/lz_pure.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/compression/lz_pure.rs b/src/compression/lz_pure.rs
index 5afb4e3..347dd4f 100644
--- a/src/compression/lz_pure.rs
+++ b/src/compression/lz_pure.rs
@@ -75,6 +75,19 @@ pub struct Lz4Compression {
     block_size: i32,
 }
 
+impl Lz4Compression {
+    /// LZ4 frames only have certain block sizes, so choose the smallest larger
+    /// one of these.
+    fn get_effective_block_size(&self) -> usize {
+        const BLOCK_SIZES: [usize; 3] = [64 << 10, 256 << 10, 1 << 20];
+        BLOCK_SIZES
+            .iter()
+            .cloned()
+            .find(|&n| self.block_size <= n as i32)
+            .unwrap_or(4 << 20)
+    }
+}
+
 fn default_lz4_block_size() -> i32 {
     65_536
 }
@@ -95,7 +108,7 @@ impl Compression for Lz4Compression {
     fn encoder<'a, W: Write + 'a>(&self, writer: W) -> Box<dyn Write + 'a> {
         let mut settings = CompressionSettings::default();
         settings
-            .block_size(self.block_size as usize)
+            .block_size(self.get_effective_block_size())
             .independent_blocks(true);
         Box::new(Wrapper {
             writer,
-- 
2.43.0


From 03d571c67b0b9d1ab70eae45416ca12ed8f48416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:11 +0000
Subject: [PATCH 34/34] fix: the lz4 compression type parses from its name with
 lz_pure

---
 src/compression/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compression/mod.rs b/src/compression/mod.rs
index a30945c..9d505ed 100644
--- a/src/compression/mod.rs
+++ b/src/compression/mod.rs
@@ -147,7 +147,7 @@ impl std::str::FromStr for CompressionType {
             #[cfg(feature = "xz")]
             "xz" => Ok(Self::new::<xz::XzCompression>()),
 
-            #[cfg(feature = "lz")]
+            #[cfg(any(feature = "lz", feature = "lz_pure"))]
             "lz4" => Ok(Self::new::<lz::Lz4Compression>()),
 
             _ => Err(std::io::ErrorKind::InvalidInput.into()),
-- 
2.43.0

