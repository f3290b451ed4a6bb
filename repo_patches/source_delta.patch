From 7b60a5e34c6241753452aac77bde33726fb5377b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 01/25] fix: unaligned reader handles 64 bit values, mixed
 pairs, empty triples and interrupted reads

---
 src/unaligned_rw.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..728b21f 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -25,7 +25,13 @@ impl<R: Read> UnalignedReader<R> {
         } else {
             let mut tmp: [u8; std::mem::size_of::<UnalignedStorage>()] =
                 [0; std::mem::size_of::<UnalignedStorage>()];
-            let bits_read = self.reader.read(&mut tmp)? * 8;
+            let bits_read = loop {
+                match self.reader.read(&mut tmp) {
+                    Ok(bytes_read) => break bytes_read * 8,
+                    Err(err) if err.kind() == std::io::ErrorKind::Interrupted => continue,
+                    Err(err) => return Err(err),
+                }
+            };
             if bits_read == 0 {
                 return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, ""));
             }
@@ -70,17 +76,20 @@ impl<R: Read> UnalignedReader<R> {
         mode1: UnalignedRWMode,
         mode2: UnalignedRWMode,
     ) -> Result<(u64, u64)> {
-        if mode1.0 + mode2.0 > u64::BITS as u8 {
+        if mode1.0 == 0 || mode2.0 == 0 || mode1.0 as u32 + mode2.0 as u32 > u64::BITS {
             Ok((self.read_unaligned(mode1)?, self.read_unaligned(mode2)?))
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
+            let r1 = data >> mode2.0;
+            let r2 = data << (u64::BITS as u8 - mode2.0) >> (u64::BITS as u8 - mode2.0);
             Ok((r1, r2))
         }
     }
     pub fn read3_unaligned(&mut self, mode: UnalignedRWMode) -> Result<(u64, u64, u64)> {
+        if mode.0 == 0 {
+            return Ok((0, 0, 0));
+        }
         if mode.0 > (u64::BITS / 3) as u8 {
             let res_1_2 = self.read2_unaligned(mode)?;
             Ok((res_1_2.0, res_1_2.1, self.read_unaligned(mode)?))
@@ -96,7 +105,7 @@ impl<R: Read> UnalignedReader<R> {
     }
     /// Reads *mode.0* bits from self, keeping internal alignment
     pub fn read_unaligned(&mut self, mode: UnalignedRWMode) -> Result<u64> {
-        if mode.0 == 0 || mode.0 >= u64::BITS as u8 {
+        if mode.0 == 0 || mode.0 > u64::BITS as u8 {
             return Ok(0);
         };
         // Prepare result integer, in which read result is stored.
@@ -111,7 +120,7 @@ impl<R: Read> UnalignedReader<R> {
             // Get amount of bits to read in current iteration: either all bits left in current_byte, or all bits remaining to read, whichever lower
             let read_ammount = total_read.min(UNALIGNED_STORAGE_BITS - self.bits_read);
             // Move res by amount of bits bits_read in current iteration to prepare res for reading into in next iteration.
-            res <<= read_ammount;
+            res = res.checked_shl(read_ammount as u32).unwrap_or(0);
             // Calculate offset of bits_read bits in current byte.
             let read_offset = UNALIGNED_STORAGE_BITS - read_ammount;
             // Read bits in current_byte at read_offset into res.
-- 
2.43.0


From 925ccb293c975ac1ce498642414c56c33a38ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 02/25] fix: vertices are saved inside their real bounding box,
 rounded, with enough bits for the promised edge deviation

---
 src/vertices.rs | 68 ++++++++++++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..ef74dba 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -28,26 +28,38 @@ impl Default for VertexPrecisionMode {
         Self(0.1)
     }
 }
+/// Calculates how many bits are needed to save coordinates spread over *size*, so that no edge changes its length by more than *max_dev*.
+/// Both ends of an edge may move by half of an increment on each axis, so the length of an edge may change by sqrt(3) increments.
+fn axis_prec(size: f64, max_dev: f64) -> u8 {
+    let increments = (size / max_dev) * f64::sqrt(3.0);
+    let prec = (increments + 1.0).log2().ceil() as u8;
+    //Ensure precision is never below 1 and never too big for the reader
+    prec.clamp(1, u64::BITS as u8 - 1)
+}
+/// Changes *value*, which is between 0 and *max*, to the nearest integer which can be saved using *bits* bits.
+pub(crate) fn quantize(value: f64, max: f64, bits: u8) -> u64 {
+    let max_int = (1_u64 << bits) - 1;
+    // Conversion saturates, and turns NaN(caused by max being 0) to 0.
+    (((value / max) * (max_int as f64)).round() as u64).min(max_int)
+}
 pub fn save_tmf_vertices<W: Write>(
     vertices: &[Vector3],
     precision: VertexPrecisionMode,
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    // An empty array has no bounding box, so use an arbitrary one.
+    let first = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let (mut min_x, mut min_y, mut min_z) = first;
+    let (mut max_x, mut max_y, mut max_z) = first;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
@@ -57,33 +69,19 @@ pub fn save_tmf_vertices<W: Write>(
     writer.write_all(&(min_z as f64).to_le_bytes())?;
     writer.write_all(&(max_z as f64).to_le_bytes())?;
     //Calculate size of the model
-    let sx = max_x - min_x;
-    let sy = max_y - min_y;
-    let sz = max_z - min_z;
-    // Ensure model size is not 0(prevents bugs)
-    let sx = sx.max(0.000_001);
-    let sy = sy.max(0.000_001);
-    let sz = sz.max(0.000_001);
-    //Calculate minimal increment
-    let inc_x = (shortest_edge / sx) * precision.0;
-    let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let sx = f64::from(max_x) - f64::from(min_x);
+    let sy = f64::from(max_y) - f64::from(min_y);
+    let sz = f64::from(max_z) - f64::from(min_z);
+    //Calculate the largest allowed change of the length of an edge
+    let max_dev = f64::from(shortest_edge) * f64::from(precision.0);
     //Calculate write precision
-    let prec_x = (1.0 / inc_x).log2().ceil() as u8;
-    let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-    let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    let prec_x = axis_prec(sx, max_dev);
+    let prec_y = axis_prec(sy, max_dev);
+    let prec_z = axis_prec(sz, max_dev);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
-    // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
@@ -91,9 +89,9 @@ pub fn save_tmf_vertices<W: Write>(
     // Create writer
     let mut writer = UnalignedWriter::new(writer);
     for vertex in vertices {
-        let x = (((vertex.0 - min_x) / sx) * mul_x) as u64;
-        let y = (((vertex.1 - min_y) / sy) * mul_y) as u64;
-        let z = (((vertex.2 - min_z) / sz) * mul_z) as u64;
+        let x = quantize(f64::from(vertex.0) - f64::from(min_x), sx, prec_x.bits());
+        let y = quantize(f64::from(vertex.1) - f64::from(min_y), sy, prec_y.bits());
+        let z = quantize(f64::from(vertex.2) - f64::from(min_z), sz, prec_z.bits());
 
         writer.write_unaligned(prec_x, x)?;
         writer.write_unaligned(prec_y, y)?;
-- 
2.43.0


From 636a61347f9726300f28e95e5e3f6d3dfc6d2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 03/25] fix: shortest edge search copes with huge, tiny,
 degenerate and incomplete triangles

---
 src/tmf_exporter.rs | 43 +++++++++++++++++++++----------------------
 src/utilis.rs       |  9 +++++----
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..ace75c1 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -36,31 +36,30 @@ fn calc_shortest_edge(
                 None => return 0.1,
             };
             let mut shortest_edge = FloatType::INFINITY;
-            for i in 0..(vertex_triangles.len() / 3) {
-                let d1 = distance(
-                    vertices[vertex_triangles[i * 3] as usize],
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                );
-                let d2 = distance(
-                    vertices[vertex_triangles[i * 3 + 1] as usize],
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                );
-                let d3 = distance(
-                    vertices[vertex_triangles[i * 3 + 2] as usize],
-                    vertices[vertex_triangles[i * 3] as usize],
-                );
-                shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
+            for triangle in vertex_triangles.chunks_exact(3) {
+                for (a, b) in [(0, 1), (1, 2), (2, 0)] {
+                    let a = vertices.get(triangle[a] as usize);
+                    let b = vertices.get(triangle[b] as usize);
+                    if let (Some(a), Some(b)) = (a, b) {
+                        let d = distance(*a, *b);
+                        // Edges without length can't be preserved with any precision.
+                        if d > 0.0 {
+                            shortest_edge = shortest_edge.min(d);
+                        }
+                    }
+                }
             }
             shortest_edge
         }
         // TODO: Calculate distance between closest points for point cloud
         None => 0.1,
     };
-    assert!(
-        shortest_edge.is_finite(),
-        "Shortest edge should be finite but is '{shortest_edge}'!"
-    );
-    shortest_edge
+    if shortest_edge.is_finite() {
+        shortest_edge
+    } else {
+        // No edges
+        0.1
+    }
 }
 
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
@@ -278,7 +277,7 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
         smallvec![triangles]
     }
 }
-fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
+fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> usize {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
     let _dz = span.end.2 - span.start.2;
@@ -288,7 +287,7 @@ fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: Floa
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    prec_x as usize + prec_y as usize + prec_z as usize
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
@@ -323,7 +322,7 @@ fn find_best_vertex_spilt(vertices: &[Vector3], shortest_edge: FloatType) -> Opt
 
         } else {
             let gain_per_vert = total_per_vertex_bit_count - per_vertex_bit_count;
-            let gain = index * (gain_per_vert as usize);
+            let gain = index * gain_per_vert;
             let loss = TMF_SEG_SIZE
                 + std::mem::size_of::<u64>()
                 + 6 * std::mem::size_of::<f64>()
diff --git a/src/utilis.rs b/src/utilis.rs
index 1afb596..6f53431 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -61,10 +61,11 @@ pub(crate) fn normalize(i: Vector3) -> Vector3 {
     }
 }
 pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
-    let dx = a.0 - b.0;
-    let dy = a.1 - b.1;
-    let dz = a.2 - b.2;
-    (dx * dx + dy * dy + dz * dz).sqrt()
+    // Squares of big and small numbers do not fit in f32
+    let dx = f64::from(a.0) - f64::from(b.0);
+    let dy = f64::from(a.1) - f64::from(b.1);
+    let dz = f64::from(a.2) - f64::from(b.2);
+    (dx * dx + dy * dy + dz * dz).sqrt() as FloatType
 }
 pub(crate) fn dot(a: Vector3, b: Vector3) -> FloatType {
     a.0 * b.0 + a.1 * b.1 + a.2 * b.2
-- 
2.43.0


From 6ae6d7932a69d3ad5be44a7a4efbd0a623bbc58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 04/25] fix: refuse names and segment counts the format can't
 hold, keep the order of segments

---
 src/tmf_exporter.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index ace75c1..87d254e 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -64,6 +64,12 @@ fn calc_shortest_edge(
 
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
+    if bytes.len() > u16::MAX as usize {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh name over 65535 byte limit",
+        ));
+    }
     w.write_all(&(bytes.len() as u16).to_le_bytes())?;
     w.write_all(bytes)
 }
@@ -78,6 +84,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments are taken from the end, so restore their original order.
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
@@ -104,6 +112,13 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
+    if encoded.len() > u16::MAX as usize {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh needs more than 65535 segments",
+        )
+        .into());
+    }
     target.write_all(&(encoded.len() as u16).to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
-- 
2.43.0


From ccd21fb00a9f67569c47a0605ffc7ead1488d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:25 +0000
Subject: [PATCH 05/25] fix: lengths, index minimums and precisions stored in a
 file are not trusted

---
 src/custom_data.rs  | 20 +++++++++++++-------
 src/lib.rs          |  5 +++++
 src/normals.rs      |  2 +-
 src/tangents.rs     |  2 +-
 src/tmf_importer.rs | 18 +++++++++---------
 src/uv.rs           |  2 +-
 src/vertices.rs     | 13 ++++++++-----
 7 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..c94897f 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -234,10 +234,10 @@ impl CustomDataSegment {
                 let span = max - min;
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![0.0; len as usize];
-                for float in &mut res {
+                let mut res = Vec::with_capacity(crate::initial_capacity(len as usize));
+                for _ in 0..len {
                     let val = reader.read_unaligned(prec)?;
-                    *float = (((val as f64) / div) * span + min) as FloatType;
+                    res.push((((val as f64) / div) * span + min) as FloatType);
                 }
                 let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
                 Ok(Self::new_raw(
@@ -249,20 +249,26 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                if prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
+                let mut res = Vec::with_capacity(crate::initial_capacity(len as usize));
                 let div = ((1_u64 << prec_bits) - 1) as f64;
-                for vec4 in &mut res {
+                for _ in 0..len {
                     let (r, g) = reader.read2_unaligned(prec)?;
                     let (b, a) = reader.read2_unaligned(prec)?;
-                    *vec4 = (
+                    res.push((
                         ((r as f64) / div) as FloatType,
                         ((g as f64) / div) as FloatType,
                         ((b as f64) / div) as FloatType,
                         ((a as f64) / div) as FloatType,
-                    );
+                    ));
                 }
                 let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
                 Ok(Self::new_raw(
diff --git a/src/lib.rs b/src/lib.rs
index b8bff8e..979d50a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,6 +59,11 @@ const MIN_TMF_MAJOR: u16 = 0;
 const MIN_TMF_MINOR: u16 = 2;
 pub(crate) const MAX_SEG_SIZE: usize = 0x80_00_00_00; //Standard
                                                       //pub(crate) const MAX_SEG_SIZE: usize = 2_00_00;// for fuzzing!
+/// Capacity reserved for an array of *count* elements before any of them is read. Lengths stored in a file can't be trusted, so huge arrays grow as their data arrives.
+pub(crate) fn initial_capacity(count: usize) -> usize {
+    const MAX_INITIAL_CAPACITY: usize = 0x1_00_00;
+    count.min(MAX_INITIAL_CAPACITY)
+}
 /// Index type used for representing triangle indices.
 #[cfg(not(any(feature = "long_indices", feature = "short_indices")))]
 pub type IndexType = u32;
diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..46bf8e3 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -179,7 +179,7 @@ pub(crate) fn read_normal_array<R: Read>(reader: &mut R) -> Result<Box<[Vector3]
     }
     let precision = NormalPrecisionMode(precision);
     let mut reader = UnalignedReader::new(reader);
-    let mut normals = Vec::with_capacity(count);
+    let mut normals = Vec::with_capacity(crate::initial_capacity(count));
     for _ in 0..count {
         let normal = read_normal(precision, &mut reader)?;
         normals.push(normal);
diff --git a/src/tangents.rs b/src/tangents.rs
index f90622d..ddb14f7 100644
--- a/src/tangents.rs
+++ b/src/tangents.rs
@@ -102,7 +102,7 @@ pub(crate) fn read_tangents<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     let prec = UnalignedRWMode::precision_bits(bits_prec);
     let tan_prec = TangentPrecisionMode::from_bits(bits_prec);
-    let mut tangents = Vec::with_capacity(count as usize);
+    let mut tangents = Vec::with_capacity(crate::initial_capacity(count as usize));
     for _ in 0..count {
         let handeness = reader.read_bit()?;
         let sx = reader.read_bit()?;
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..2af45c3 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -266,25 +266,25 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
-    data.reserve(length as usize);
-    let buf = data.spare_capacity_mut();
+    if precision_bits > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
     let precision = UnalignedRWMode::precision_bits(precision_bits);
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
-        use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(0));
+        data.resize(length as usize, min as IndexType);
     } else {
-        for index in 0..(length as usize) / 2 {
+        data.reserve(crate::initial_capacity(length as usize));
+        for _ in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
+            data.push(i1.wrapping_add(min) as IndexType);
+            data.push(i2.wrapping_add(min) as IndexType);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
+            data.push(i.wrapping_add(min) as IndexType);
         }
     }
-    unsafe { data.set_len(length as usize) }
     Ok(())
 }
 #[allow(dead_code)]
diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..a78e88d 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -62,7 +62,7 @@ pub fn read_uvs<R: Read>(reader: &mut R) -> Result<Box<[Vector2]>, TMFImportErro
     if precision >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(precision));
     }
-    let mut uvs = Vec::with_capacity(count as usize);
+    let mut uvs = Vec::with_capacity(crate::initial_capacity(count as usize));
     let divisor = ((1_u64 << precision) - 1) as FloatType;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
diff --git a/src/vertices.rs b/src/vertices.rs
index ef74dba..79f82af 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -138,7 +138,7 @@ pub fn read_tmf_vertices<R: Read>(reader: &mut R) -> Result<Box<[Vector3]>, TMFI
     if vertex_count > MAX_SEG_SIZE {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut vertices = Vec::with_capacity(vertex_count);
+    let mut vertices = Vec::with_capacity(crate::initial_capacity(vertex_count));
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..vertex_count {
         //let (x,y) = reader.read_pair_unaligned(prec_x,prec_y)?;
@@ -201,16 +201,19 @@ pub(crate) fn read_triangles<R: Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut res = Vec::with_capacity(length as usize);
+    if precision > u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
+    let mut res = Vec::with_capacity(crate::initial_capacity(length as usize));
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(i1.wrapping_add(min) as IndexType);
+        res.push(i2.wrapping_add(min) as IndexType);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(reader.read_unaligned(precision)?.wrapping_add(min) as IndexType);
     }
     Ok(res.into())
 }
-- 
2.43.0


From 03791e5259f1e62fc902af303ce5fc9463a36b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 06/25] fix: normals are rounded, z aligned normals and extreme
 precisions are handled

---
 src/normals.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index 46bf8e3..1005f5d 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::vertices::quantize;
 use crate::{FloatType, TMFImportError, Vector3, MAX_SEG_SIZE};
 #[cfg(not(feature = "double_precision"))]
 use std::f32::consts::FRAC_PI_2;
@@ -22,7 +23,7 @@ impl NormalPrecisionMode {
     /// let dev_5_deg = NormalPrecisionMode::from_deg_dev(5.0);
     /// ```
     pub fn from_deg_dev(deg: FloatType) -> Self {
-        let prec = ((90.0 / deg).log2().ceil() as u8).max(1);
+        let prec = ((90.0 / deg).log2().ceil() as u8).clamp(1, u64::BITS as u8 - 1);
         Self(prec)
     }
     /// Creates NormalPrecisionMode from maximal allowed deviation angle in radians, for degrees use [`Self::from_deg_dev`]
@@ -34,7 +35,7 @@ impl NormalPrecisionMode {
     /// let dev_0_point_05_rad = NormalPrecisionMode::from_rad_dev(0.05);
     /// ```
     pub fn from_rad_dev(rad: FloatType) -> Self {
-        let prec = (FRAC_PI_2 / rad).log2().ceil() as u8;
+        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).clamp(1, u64::BITS as u8 - 1);
         Self(prec)
     }
     pub(crate) fn bits(&self) -> u8 {
@@ -68,17 +69,12 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
     //Calculate asine
-    let xy = (normal.0.abs(), normal.1.abs());
-    let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
-    let xy = (xy.0 / xy_mag, xy.1 / xy_mag);
-    let asine = xy.0.asin();
-
-    let asine = asine / (PI / 2.0);
-    //
-    let asine = (asine * multiplier) as u64;
-    let z = (normal.2.abs() * multiplier) as u64;
+    let xy = (f64::from(normal.0.abs()), f64::from(normal.1.abs()));
+    // The same as asine of normalized x, but does not need xy to have any length.
+    let asine = xy.0.atan2(xy.1);
+    let asine = quantize(asine, std::f64::consts::FRAC_PI_2, precision.0);
+    let z = quantize(f64::from(normal.2.abs()), 1.0, precision.0);
     let sx = normal.0 < 0.0;
     let sy = normal.1 < 0.0;
     let sz = normal.2 < 0.0;
-- 
2.43.0


From 3ade676a7e03b744d0baf20fb54005e1162c4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 07/25] fix: UVs are rounded and clamped, extreme UV precisions
 are handled

---
 src/uv.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/uv.rs b/src/uv.rs
index a78e88d..39eae7d 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
+use crate::vertices::quantize;
 use crate::TMFImportError;
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, Vector2};
@@ -14,7 +15,8 @@ impl UvPrecisionMode {
     /// let mode = UvPrecisionMode::form_texture_resolution(1024.0,0.1);
     /// ```
     pub fn form_texture_resolution(resolution: f32, pixel_dev: f32) -> Self {
-        Self((resolution / pixel_dev).log2().ceil() as u8)
+        let prec = (resolution / pixel_dev).log2().ceil() as u8;
+        Self(prec.min(u64::BITS as u8 - 1))
     }
 }
 impl Default for UvPrecisionMode {
@@ -36,14 +38,13 @@ pub fn save_uvs<W: Write>(
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
     let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
     writer.write_all(&[precision])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut writer = UnalignedWriter::new(writer);
     for uv in uvs.iter() {
-        let x = (uv.0 * multpiler) as u64;
-        let y = (uv.1 * multpiler) as u64;
+        let x = quantize(f64::from(uv.0), 1.0, precision.bits());
+        let y = quantize(f64::from(uv.1), 1.0, precision.bits());
         writer.write_unaligned(precision, x)?;
         writer.write_unaligned(precision, y)?;
     }
-- 
2.43.0


From ff6172ec6b2fba910cb3ccd0a3076a7a71c262a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 08/25] fix: custom floats and colors are rounded, keep their
 precision when saved again and work for every span and precision

---
 src/custom_data.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index c94897f..8d389a1 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::tmf::SectionType;
+use crate::vertices::quantize;
 use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
 #[derive(Clone, Debug)]
 pub(crate) struct CustomDataSegment {
@@ -47,6 +48,14 @@ impl CustomDataSegment {
         Ok(Self::new_raw(data, name, name_len))
     }
 }
+/// Calculates how many bits are needed to save floats spread over *span* with increments not bigger than *prec*.
+fn float_prec(span: f64, prec: f64) -> u8 {
+    let bits = (span / prec + 1.0).log2();
+    // Precision read from a file is rounded, which must not add another bit each time the data is saved.
+    let bits = (bits - 0.0001).ceil() as u8;
+    //Ensure precision is never 0(messes up the reader/writer) and never too big for the reader.
+    bits.clamp(1, u64::BITS as u8 - 1)
+}
 /// Custom mesh data.
 #[derive(Clone, Debug)]
 pub enum CustomData {
@@ -97,11 +106,11 @@ impl CustomData {
                     max = max.max(*entry);
                     min = min.min(*entry);
                 }
-                let span = max - min;
-                let prec = (span / prec).log2().ceil() as u8;
-                //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                if data.is_empty() {
+                    (min, max) = (0.0, 0.0);
+                }
+                let span = f64::from(max) - f64::from(min);
+                let prec = float_prec(span, f64::from(*prec));
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
@@ -109,24 +118,23 @@ impl CustomData {
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = (((entry - min) / span) * mul) as u64;
+                    let entry = quantize(f64::from(*entry) - f64::from(min), span, prec.bits());
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
             }
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
-                let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                let prec_bits = float_prec(1.0, f64::from(*prec));
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry_r = (entry.0 * mul) as u64;
-                    let entry_g = (entry.1 * mul) as u64;
-                    let entry_b = (entry.2 * mul) as u64;
-                    let entry_a = (entry.3 * mul) as u64;
+                    let entry_r = quantize(f64::from(entry.0), 1.0, prec_bits);
+                    let entry_g = quantize(f64::from(entry.1), 1.0, prec_bits);
+                    let entry_b = quantize(f64::from(entry.2), 1.0, prec_bits);
+                    let entry_a = quantize(f64::from(entry.3), 1.0, prec_bits);
                     writer.write_unaligned(prec, entry_r)?;
                     writer.write_unaligned(prec, entry_g)?;
                     writer.write_unaligned(prec, entry_b)?;
@@ -239,7 +247,7 @@ impl CustomDataSegment {
                     let val = reader.read_unaligned(prec)?;
                     res.push((((val as f64) / div) * span + min) as FloatType);
                 }
-                let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                let prec = (span / div) as FloatType;
                 Ok(Self::new_raw(
                     CustomData::new_float(&res, prec),
                     name,
@@ -270,7 +278,7 @@ impl CustomDataSegment {
                         ((a as f64) / div) as FloatType,
                     ));
                 }
-                let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
+                let prec = (1.0 / div) as FloatType;
                 Ok(Self::new_raw(
                     CustomData::new_color_rgba(&res, prec),
                     name,
-- 
2.43.0


From f30ea2360d7b7484b438ea11fb16633aadd59962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:09 +0000
Subject: [PATCH 09/25] fix: verify refuses indices equal to array length, UVs
 with one coordinate outside the range and NaN normals

---
 src/verify.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index a68f0e8..9256fe4 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -59,9 +59,9 @@ impl std::fmt::Debug for TMFIntegrityStatus {
     }
 }
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
-fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
+fn indices_inside_array(array: &[IndexType], length: usize) -> Option<IndexType> {
     for index in array {
-        if *index > length as IndexType {
+        if *index as usize >= length {
             return Some(*index);
         }
     }
@@ -77,7 +77,7 @@ fn verify_vertices(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
             }
         }
         Some(vertices) => match mesh.get_vertex_triangles() {
-            Some(triangles) => match indices_inside_array(triangles, vertices.len() as IndexType) {
+            Some(triangles) => match indices_inside_array(triangles, vertices.len()) {
                 Some(index) => Err(TMFIntegrityStatus::IndexOutsideVertexArray(
                     index,
                     vertices.len() as IndexType,
@@ -99,12 +99,12 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(uvs) => {
             for uv in uvs {
-                if uv.0 < 0.0 && uv.1 < 0.0 && uv.0 > 1.0 && uv.1 > 1.0 {
+                if !(0.0..=1.0).contains(&uv.0) || !(0.0..=1.0).contains(&uv.1) {
                     return Err(TMFIntegrityStatus::UVOutsideRange(uv.0, uv.1));
                 }
             }
             match mesh.get_uv_triangles() {
-                Some(triangles) => match indices_inside_array(triangles, uvs.len() as IndexType) {
+                Some(triangles) => match indices_inside_array(triangles, uvs.len()) {
                     Some(index) => Err(TMFIntegrityStatus::IndexOutsideUVArray(
                         index,
                         uvs.len() as IndexType,
@@ -128,13 +128,14 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(normals) => {
             for normal in normals {
-                if (1.0 - magnitude(*normal)).abs() > 0.001 {
+                // `contains` is false for NaNs too
+                if !(0.0..=0.001).contains(&(1.0 - magnitude(*normal)).abs()) {
                     return Err(TMFIntegrityStatus::NormalsNotNormalized);
                 }
             }
             match mesh.get_normal_triangles() {
                 Some(triangles) => {
-                    match indices_inside_array(triangles, normals.len() as IndexType) {
+                    match indices_inside_array(triangles, normals.len()) {
                         Some(index) => Err(TMFIntegrityStatus::IndexOutsideNormalArray(
                             index,
                             normals.len() as IndexType,
-- 
2.43.0


From 58efb00df31b116a52484019ba1544cdd74919be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:35 +0000
Subject: [PATCH 10/25] fix: normalize handles zero, huge and tiny vectors

---
 src/utilis.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 6f53431..69e5cbb 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -50,14 +50,17 @@ pub(crate) fn magnitude(i: Vector3) -> FloatType {
     (xx + yy + zz).sqrt()
 }
 pub(crate) fn normalize(i: Vector3) -> Vector3 {
-    let xx = i.0 * i.0;
-    let yy = i.1 * i.1;
-    let zz = i.2 * i.2;
-    let mag = (xx + yy + zz).sqrt();
-    if mag.is_nan() {
+    // Squares of big and small numbers do not fit in f32
+    let (x, y, z) = (f64::from(i.0), f64::from(i.1), f64::from(i.2));
+    let mag = (x * x + y * y + z * z).sqrt();
+    if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
     } else {
-        (i.0 / mag, i.1 / mag, i.2 / mag)
+        (
+            (x / mag) as FloatType,
+            (y / mag) as FloatType,
+            (z / mag) as FloatType,
+        )
     }
 }
 pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
-- 
2.43.0


From 0337e0ab422c0ba4889a29f6bcf6dc5af38a351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 11/25] fix: unify_index_data leaves meshes it can't unify
 unaffected instead of panicking

---
 src/lib.rs        |  2 +-
 src/unify_data.rs | 28 ++++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 979d50a..49bd6f2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -193,7 +193,7 @@ impl TMFMesh {
         }
     }
     /// Changes mesh data to make all index arrays(e.g. `vertex_triangle_array`,`normal_triangle_array`, etc.) exactly the same. Does not support custom index segments,  and will leave them unaffected.
-    /// Very often drastically reduces mesh size.
+    /// Very often drastically reduces mesh size. Meshes with index arrays of different lengths, or with indices outside their data arrays can't be unified and are left unaffected.
     /// # Example
     /// ```
     /// # use tmf::TMFMesh;
diff --git a/src/unify_data.rs b/src/unify_data.rs
index c669cff..ceeda5f 100644
--- a/src/unify_data.rs
+++ b/src/unify_data.rs
@@ -113,11 +113,30 @@ fn is_merge_needed(indices: &[Option<&[IndexType]>]) -> bool {
         false
     }
 }
+/// Checks if index arrays of all parts having both data and indices have equal lengths and point only inside the data.
+fn can_be_merged(parts: &[(Option<usize>, Option<&[IndexType]>)]) -> bool {
+    let mut length = None;
+    for (data_length, indices) in parts {
+        let (data_length, indices) = match (data_length, indices) {
+            (Some(data_length), Some(indices)) if *data_length > 0 => (*data_length, *indices),
+            // Parts without data or indices do not take part in merging
+            _ => continue,
+        };
+        if *length.get_or_insert(indices.len()) != indices.len()
+            || indices.iter().any(|index| *index as usize >= data_length)
+        {
+            return false;
+        }
+    }
+    true
+}
 fn smart_merge_data_2<A: Copy, B: Copy>(
     a: Option<&[A]>,
     b: Option<&[B]>,
     indices: [Option<&[IndexType]>; 2],
 ) -> (OBoxArr<A>, OBoxArr<B>, OBoxArr<IndexType>) {
+    let a = a.filter(|data| !data.is_empty());
+    let b = b.filter(|data| !data.is_empty());
     if !is_merge_needed(&indices) {
         return (None, None, None);
     }
@@ -173,6 +192,15 @@ pub(crate) fn smart_merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
     if !is_merge_needed(&indices) {
         return (None, None, None, None, None);
     }
+    let parts = [
+        (a.map(<[A]>::len), indices[0]),
+        (b.map(<[B]>::len), indices[1]),
+        (c.map(<[C]>::len), indices[2]),
+        (d.map(<[D]>::len), indices[3]),
+    ];
+    if !can_be_merged(&parts) {
+        return (None, None, None, None, None);
+    }
     if !a.is_some_and(|data| !data.is_empty()) || indices[0].is_none() {
         let (b, c, d, indices) = smart_merge_data_3(b, c, d, [indices[1], indices[2], indices[3]]);
         (None, b, c, d, indices)
-- 
2.43.0


From 04f076f2cbba1fd0c91bcb0622ab22433926d3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:39 +0000
Subject: [PATCH 12/25] fix: triangulation finds the previous corner of
 polygons of every size and refuses missing vertices

---
 src/model_importer.rs |  6 ++++++
 src/triangulation.rs  | 10 +++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..2602954 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -140,6 +140,12 @@ impl ModelImporter {
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = SmallVec::from_slice(normal_indices);
                     let uv_indices = SmallVec::from_slice(uv_indices);
+                    if vertex_indices
+                        .iter()
+                        .any(|index| *index as usize >= self.vertices.len())
+                    {
+                        return Err("Can't triangulate a face with vertices that do not exist".to_owned());
+                    }
                     triangulate(self, vertex_indices, normal_indices, uv_indices);
                     Ok(())
                 }
diff --git a/src/triangulation.rs b/src/triangulation.rs
index bde76a0..485d7a1 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -31,13 +31,17 @@ fn is_line_inside_poly(
 ) -> bool {
     true
 }
+// index before `index` in a polygon with `len` points
+fn prev_wrapped(index: usize, len: usize) -> usize {
+    (index + len - 1) % len
+}
 fn calc_ear_val_at_index(
     indices: &[IndexType],
     index: usize,
     vertices: &[Vector3],
 ) -> FloatType {
     let tri = (
-        index.wrapping_sub(1) % indices.len(),
+        prev_wrapped(index, indices.len()),
         index,
         index.wrapping_add(1) % indices.len(),
     );
@@ -66,7 +70,7 @@ fn triangulate(
                 best_index = index;
             }
         }
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = prev_wrapped(best_index, vertex_indices.len());
         let curr_index = best_index;
         let next_index = best_index.wrapping_add(1) % vertex_indices.len();
         
@@ -89,7 +93,7 @@ fn triangulate(
         ear_vals.remove(curr_index);
         
         let curr_index = curr_index % vertex_indices.len();
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = prev_wrapped(best_index, vertex_indices.len());
         ear_vals[curr_index] = calc_ear_val_at_index(&vertex_indices, curr_index, &mi.vertices);
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
-- 
2.43.0


From 642bafe5232b176cf462036651733977cec31018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 13/25] fix: OBJ export counts the data of point clouds and
 refuses what the format can't hold

---
 src/obj.rs | 60 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..b3bfa34 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -115,16 +115,18 @@ fn save_obj<W: Write>(
     index_offset: (IndexType, IndexType, IndexType),
     name: &str,
 ) -> Result<(IndexType, IndexType, IndexType)> {
+    if name.contains(&['\n', '\r']) {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "Name with line breaks can't be saved in .obj file.",
+        ));
+    }
     writeln!(w, "o {name}")?;
-    let vertex_count = match mesh.get_vertices() {
-        None => 0,
-        Some(vertices) => {
-            for vertex in vertices {
-                writeln!(w, "v {} {} {}", vertex.0, vertex.1, vertex.2)?;
-            }
-            vertices.len()
+    if let Some(vertices) = mesh.get_vertices() {
+        for vertex in vertices {
+            writeln!(w, "v {} {} {}", vertex.0, vertex.1, vertex.2)?;
         }
-    };
+    }
     match mesh.get_normals() {
         None => (),
         Some(normals) => {
@@ -156,9 +158,15 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            return Ok(data_counts(mesh));
         }
     };
+    if vert_triangle_len % 3 != 0 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "Number of indices in the vertex triangle array is not divisible by 3.",
+        ));
+    }
     // Ensure normal triangle array, if present, has the right length.
     if let Some(normal_triangles) = mesh.get_normal_triangles() {
         if normal_triangles.len() != vert_triangle_len {
@@ -183,11 +191,11 @@ fn save_obj<W: Write>(
             write!(w, "f ")?
         };
         // Why unwrap? Vertex triangle array MUST be present at this point in time, because if it was not, this function would have already returned.
-        let vertex = mesh.get_vertex_triangles().unwrap()[i] + index_offset.0;
+        let vertex = offset_index(mesh.get_vertex_triangles().unwrap()[i], index_offset.0)?;
         write!(w, "{}", vertex)?;
         let normals = mesh.get_normal_triangles();
         match mesh.get_uv_triangles() {
-            Some(uvs) => write!(w, "/{}", uvs[i] + index_offset.1)?,
+            Some(uvs) => write!(w, "/{}", offset_index(uvs[i], index_offset.1)?)?,
             None => {
                 if normals.is_some() {
                     write!(w, "/")?
@@ -195,7 +203,7 @@ fn save_obj<W: Write>(
             }
         }
         if let Some(normals) = normals {
-            write!(w, "/{}", normals[i] + index_offset.2)?
+            write!(w, "/{}", offset_index(normals[i], index_offset.2)?)?
         };
         if i % 3 == 2 {
             writeln!(w)?
@@ -203,20 +211,20 @@ fn save_obj<W: Write>(
             write!(w, " ")?
         }
     }
-    let normal_count = match mesh.get_normals() {
-        Some(normals) => normals.len(),
-        None => 0,
-    };
-    let uv_count = match mesh.get_uvs() {
-        Some(uvs) => uvs.len(),
-        None => 0,
-    };
-    // If no vertices present, then no vertex triangles SHOULD be present, so if they are present, it is an error.
-    Ok((
-        vertex_count as IndexType,
-        uv_count as IndexType,
-        normal_count as IndexType,
-    ))
+    Ok(data_counts(mesh))
+}
+/// Number of vertices, uvs and normals a mesh adds to the .obj file.
+fn data_counts(mesh: &TMFMesh) -> (IndexType, IndexType, IndexType) {
+    (
+        mesh.get_vertices().map_or(0, <[_]>::len) as IndexType,
+        mesh.get_uvs().map_or(0, <[_]>::len) as IndexType,
+        mesh.get_normals().map_or(0, <[_]>::len) as IndexType,
+    )
+}
+fn offset_index(index: IndexType, offset: IndexType) -> Result<IndexType> {
+    index
+        .checked_add(offset)
+        .ok_or_else(|| Error::new(ErrorKind::Other, "Index too big to be saved in .obj file."))
 }
 /// Writes this TMF  mesh to a .obj file.
 pub fn write_obj<W: Write, S: std::borrow::Borrow<str>>(
-- 
2.43.0


From 7b137cb259cef69b25266ba9c52b00b1bfb612b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 14/25] fix: OBJ import reads corners without UVs or normals,
 whole names and any white space, and refuses malformed faces

---
 src/model_importer.rs | 74 +++++++++++++++++++------------------------
 src/obj.rs            | 65 +++++++++++++++++++++----------------
 src/triangulation.rs  | 56 ++++++++++++++++----------------
 3 files changed, 99 insertions(+), 96 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 2602954..be3e51b 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -33,53 +33,41 @@ impl ModelImporter {
         if self.vertex_triangles.is_empty() {
             return None;
         }
-        let mut mesh = TMFMesh::empty();
-        let (mut vertices, mut vertex_triangles) =
-            (self.vertices.clone(), self.vertex_triangles.clone());
-        let (mut normals, mut normal_triangles) =
-            (self.normals.clone(), self.normal_triangles.clone());
-        let (mut uvs, mut uv_triangles) = (self.uvs.clone(), self.uv_triangles.clone());
-
-        crate::utilis::fast_prune(&mut vertices, &mut vertex_triangles);
-        crate::utilis::fast_prune(&mut normals, &mut normal_triangles);
-        crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
-
-        mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
-        mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
-
-        self.vertex_triangles.clear();
-        self.normal_triangles.clear();
-        self.uv_triangles.clear();
-
-        Some((mesh, name))
+        Some((self.take_mesh(), name))
     }
-    pub(crate) fn finish(self) -> std::io::Result<(TMFMesh, String)> {
+    pub(crate) fn finish(mut self) -> std::io::Result<(TMFMesh, String)> {
+        Ok((self.take_mesh(), self.name))
+    }
+    fn take_mesh(&mut self) -> TMFMesh {
         let mut mesh = TMFMesh::empty();
 
-        let (mut vertices, mut vertex_triangles) =
-            (self.vertices.clone(), self.vertex_triangles.clone());
-        let (mut normals, mut normal_triangles) =
-            (self.normals.clone(), self.normal_triangles.clone());
-        let (mut uvs, mut uv_triangles) = (self.uvs.clone(), self.uv_triangles.clone());
+        let mut vertices = self.vertices.clone();
+        let mut vertex_triangles = std::mem::take(&mut self.vertex_triangles);
+        let mut normal_triangles = std::mem::take(&mut self.normal_triangles);
+        let mut uv_triangles = std::mem::take(&mut self.uv_triangles);
+
+        // Faces of this mesh may use no normals and no UVs
+        let has_normals = !normal_triangles.is_empty() || vertex_triangles.is_empty();
+        let has_uvs = !uv_triangles.is_empty() || vertex_triangles.is_empty();
 
         crate::utilis::fast_prune(&mut vertices, &mut vertex_triangles);
-        crate::utilis::fast_prune(&mut normals, &mut normal_triangles);
-        crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
 
-        Ok((mesh, self.name))
+        if has_normals {
+            let mut normals = self.normals.clone();
+            crate::utilis::fast_prune(&mut normals, &mut normal_triangles);
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if has_uvs {
+            let mut uvs = self.uvs.clone();
+            crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
+        mesh
     }
     pub(crate) fn push_vertex(&mut self, vertex: Vector3) {
         self.vertices.push(vertex);
@@ -108,9 +96,13 @@ impl ModelImporter {
         uv_indices: &[IndexType],
         normal_indices: &[IndexType],
     ) -> Result<(), String> {
-        if !(vertex_indices.len() == uv_indices.len()
-            && vertex_indices.len() == normal_indices.len())
-        {
+        // UVs and normals are optional, but a mesh can't have them only for some of its corners
+        let first_face = self.vertex_triangles.is_empty();
+        let fits = |indices: &[IndexType], triangles: &[IndexType]| {
+            (indices.is_empty() || indices.len() == vertex_indices.len())
+                && (first_face || indices.is_empty() == triangles.is_empty())
+        };
+        if !fits(uv_indices, &self.uv_triangles) || !fits(normal_indices, &self.normal_triangles) {
             return Err(format!("Number of face indices must be equal for each index type, but was: {} vertices, {} uvs, {} normals.",vertex_indices.len(),uv_indices.len(),normal_indices.len()));
         }
         match vertex_indices.len() {
diff --git a/src/obj.rs b/src/obj.rs
index b3bfa34..4442da5 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -4,10 +4,13 @@ use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Result, Write};
 pub(crate) const SMALL_VEC_CAP: usize = 8;
 fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TMFMesh, String)>> {
     let line = line?;
-    // Split the line by white spaces and '/' sign used in triangles
-    let mut split = line.split(&[' ', '/']);
+    // Split the line by white spaces
+    let mut split = line.split_whitespace();
     // Get the beginning of the line
-    let beg = match_split(split.next())?;
+    let beg = match split.next() {
+        Some(beg) => beg,
+        None => return Ok(None), // Ignore empty lines
+    };
     match beg {
         "#" => (), //Ignoring comments
         "mtllib" => (),
@@ -18,7 +21,8 @@ fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TM
         "vt" => oi.push_uv(load_vec2(&mut split)?),
         "f" => load_face(&mut split, oi)?,
         "o" => {
-            let name = match_split(split.next())?.to_owned();
+            // Name is the rest of the line, and may contain spaces
+            let name = line.trim_start()[beg.len()..].trim().to_owned();
             return Ok(oi.next_mesh(name));
         }
         _ => (), //Ignore invalid/unsuported lines.
@@ -48,8 +52,15 @@ fn parse_float_type(float: &str) -> Result<FloatType> {
         )),
     }
 }
-fn parse_index(uint: &str) -> IndexType {
-    uint.parse::<IndexType>().unwrap_or(1)
+fn invalid_index() -> Error {
+    Error::new(ErrorKind::Other, "Invalid index!")
+}
+fn parse_index(uint: &str) -> Result<IndexType> {
+    // Indices in .obj files start from 1
+    uint.parse::<IndexType>()
+        .ok()
+        .and_then(|index| index.checked_sub(1))
+        .ok_or_else(invalid_index)
 }
 fn match_split(split: Option<&str>) -> Result<&str> {
     match split {
@@ -61,39 +72,37 @@ fn match_split(split: Option<&str>) -> Result<&str> {
     }
 }
 use smallvec::SmallVec;
-use std::str::Split;
-fn load_indices(split: &mut Split<&[char; 2]>) -> Result<(IndexType, IndexType, IndexType)> {
-    let (i0, i1, i2) = (
-        match_split(split.next())?,
-        match_split(split.next())?,
-        match_split(split.next())?,
-    );
-    let (i0, i1, i2) = (parse_index(i0), parse_index(i1), parse_index(i2));
-    if i0 < 1 || i1 < 1 || i2 < 1 {
-        Err(std::io::Error::new(
-            std::io::ErrorKind::Other,
-            "Invalid index!",
-        ))
-    } else {
-        Ok((i0 - 1, i1 - 1, i2 - 1))
+use std::str::SplitWhitespace;
+/// Loads indices of a face corner, written either as `v`, `v/vt`, `v//vn` or `v/vt/vn`.
+fn load_corner(corner: &str) -> Result<(IndexType, Option<IndexType>, Option<IndexType>)> {
+    let mut split = corner.split('/');
+    let vertex_index = parse_index(match_split(split.next())?)?;
+    let uv_index = match split.next() {
+        None | Some("") => None,
+        Some(index) => Some(parse_index(index)?),
+    };
+    let normal_index = split.next().map(parse_index).transpose()?;
+    if split.next().is_some() {
+        return Err(invalid_index());
     }
+    Ok((vertex_index, uv_index, normal_index))
 }
-///IMPORTANT TODO: It seems likey that normals and uvs are spwapped in this function. Investigate and cleanup the confusion and refactor triangulation
-fn load_face(split: &mut Split<&[char; 2]>, oi: &mut ModelImporter) -> Result<()> {
+fn load_face(split: &mut SplitWhitespace, oi: &mut ModelImporter) -> Result<()> {
     let mut vertex_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut uv_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut normal_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
-    while let Ok((vertex_index, uv_index, normal_index)) = load_indices(split) {
+    for corner in split {
+        let (vertex_index, uv_index, normal_index) = load_corner(corner)?;
         vertex_indices.push(vertex_index);
-        uv_indices.push(uv_index);
-        normal_indices.push(normal_index);
+        uv_indices.extend(uv_index);
+        normal_indices.extend(normal_index);
     }
     match oi.push_face(&vertex_indices, &uv_indices, &normal_indices) {
         Ok(()) => Ok(()),
         Err(msg) => Err(Error::new(ErrorKind::Other, msg)),
     }
 }
-pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
+pub fn load_vec3(split: &mut SplitWhitespace) -> Result<Vector3> {
     let (x, y, z) = (
         match_split(split.next())?,
         match_split(split.next())?,
@@ -105,7 +114,7 @@ pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
         parse_float_type(z)?,
     ))
 }
-pub fn load_vec2(split: &mut Split<&[char; 2]>) -> Result<Vector2> {
+pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
     let (x, y) = (match_split(split.next())?, match_split(split.next())?);
     Ok((parse_float_type(x)?, parse_float_type(y)?))
 }
diff --git a/src/triangulation.rs b/src/triangulation.rs
index 485d7a1..2a2f42e 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -58,7 +58,11 @@ fn triangulate(
     mut normal_indices:SmallVec<[IndexType; SMALL_VEC_CAP]>,
     mut uv_indices:SmallVec<[IndexType; SMALL_VEC_CAP]>,
 ) {
-    debug_assert!(vertex_indices.len() == normal_indices.len()&& vertex_indices.len() == uv_indices.len());
+    // Faces may have no normals and no UVs
+    let has_normals = !normal_indices.is_empty();
+    let has_uvs = !uv_indices.is_empty();
+    debug_assert!(!has_normals || vertex_indices.len() == normal_indices.len());
+    debug_assert!(!has_uvs || vertex_indices.len() == uv_indices.len());
     let mut ear_vals: Vec<FloatType> = Vec::with_capacity(vertex_indices.len());
     for index in 0_usize..vertex_indices.len() {
         ear_vals.push(calc_ear_val_at_index(&vertex_indices, index, &mi.vertices));
@@ -74,21 +78,23 @@ fn triangulate(
         let curr_index = best_index;
         let next_index = best_index.wrapping_add(1) % vertex_indices.len();
         
-        mi.push_vertex_index(vertex_indices[prev_index]);
-        mi.push_vertex_index(vertex_indices[curr_index]);
-        mi.push_vertex_index(vertex_indices[next_index]);
-        
-        mi.push_normal_index(normal_indices[prev_index]);
-        mi.push_normal_index(normal_indices[curr_index]);
-        mi.push_normal_index(normal_indices[next_index]);
-        
-        mi.push_uv_index(uv_indices[prev_index]);
-        mi.push_uv_index(uv_indices[curr_index]);
-        mi.push_uv_index(uv_indices[next_index]);
+        for index in [prev_index, curr_index, next_index] {
+            mi.push_vertex_index(vertex_indices[index]);
+            if has_normals {
+                mi.push_normal_index(normal_indices[index]);
+            }
+            if has_uvs {
+                mi.push_uv_index(uv_indices[index]);
+            }
+        }
         
         vertex_indices.remove(curr_index);
-        normal_indices.remove(curr_index);
-        uv_indices.remove(curr_index);
+        if has_normals {
+            normal_indices.remove(curr_index);
+        }
+        if has_uvs {
+            uv_indices.remove(curr_index);
+        }
         
         ear_vals.remove(curr_index);
         
@@ -98,17 +104,13 @@ fn triangulate(
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
     }
-    mi.push_vertex_index(vertex_indices[0]);
-    mi.push_vertex_index(vertex_indices[1]);
-    mi.push_vertex_index(vertex_indices[2]);
-        
-    mi.push_normal_index(normal_indices[0]);
-    mi.push_normal_index(normal_indices[1]);
-    mi.push_normal_index(normal_indices[2]);
-        
-    mi.push_uv_index(uv_indices[0]);
-    mi.push_uv_index(uv_indices[1]);
-    mi.push_uv_index(uv_indices[2]);
+    for index in 0..3 {
+        mi.push_vertex_index(vertex_indices[index]);
+        if has_normals {
+            mi.push_normal_index(normal_indices[index]);
+        }
+        if has_uvs {
+            mi.push_uv_index(uv_indices[index]);
+        }
+    }
 }
-
-
-- 
2.43.0


From e178dfd6031c87dd03d7f5f86494925bc5884177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:08 +0000
Subject: [PATCH 15/25] fix: asynchronous readers work outside of a tokio
 runtime

---
 src/tmf_importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 2af45c3..e2487ed 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -135,7 +135,7 @@ impl TMFImportContext {
             let decoded = async move { DecodedSegment::decode(encoded, &ctx).await };
 
             #[cfg(feature = "tokio_runtime")]
-            let decoded = { tokio::task::spawn(decoded) };
+            let decoded = { crate::TOKIO_RUNTIME.spawn(decoded) };
 
             decoded_segs.push(decoded);
         }
-- 
2.43.0


From e495ad2a04fe922b2691a01f58f797cfb1bc8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 16/25] fix: builds with double_precision, long_indices and
 short_indices compile

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 49bd6f2..5a050f3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -69,13 +69,16 @@ pub(crate) fn initial_capacity(count: usize) -> usize {
 pub type IndexType = u32;
 #[cfg(all(feature = "long_indices", feature = "short_indices"))]
 compile_error!("Size of indices can't be both long(u64) or short(u16)");
+/// Index type used for representing triangle indices.
 #[cfg(feature = "long_indices")]
 pub type IndexType = u64;
+/// Index type used for representing triangle indices.
 #[cfg(feature = "short_indices")]
 pub type IndexType = u16;
 /// Type used for representing floating-point numbers.
 #[cfg(not(feature = "double_precision"))]
 pub type FloatType = f32;
+/// Type used for representing floating-point numbers.
 #[cfg(feature = "double_precision")]
 pub type FloatType = f64;
 /// Type used for representing 4d floating-point vectors
-- 
2.43.0


From ea2bf83b712aa8031315d92d501128e86e7c8625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 17/25] fix: OBJ export of many meshes is not limited by the
 index type

---
 src/obj.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 4442da5..7681f84 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -121,9 +121,9 @@ pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
 fn save_obj<W: Write>(
     w: &mut W,
     mesh: &TMFMesh,
-    index_offset: (IndexType, IndexType, IndexType),
+    index_offset: (u64, u64, u64),
     name: &str,
-) -> Result<(IndexType, IndexType, IndexType)> {
+) -> Result<(u64, u64, u64)> {
     if name.contains(&['\n', '\r']) {
         return Err(Error::new(
             ErrorKind::Other,
@@ -223,15 +223,15 @@ fn save_obj<W: Write>(
     Ok(data_counts(mesh))
 }
 /// Number of vertices, uvs and normals a mesh adds to the .obj file.
-fn data_counts(mesh: &TMFMesh) -> (IndexType, IndexType, IndexType) {
+fn data_counts(mesh: &TMFMesh) -> (u64, u64, u64) {
     (
-        mesh.get_vertices().map_or(0, <[_]>::len) as IndexType,
-        mesh.get_uvs().map_or(0, <[_]>::len) as IndexType,
-        mesh.get_normals().map_or(0, <[_]>::len) as IndexType,
+        mesh.get_vertices().map_or(0, <[_]>::len) as u64,
+        mesh.get_uvs().map_or(0, <[_]>::len) as u64,
+        mesh.get_normals().map_or(0, <[_]>::len) as u64,
     )
 }
-fn offset_index(index: IndexType, offset: IndexType) -> Result<IndexType> {
-    index
+fn offset_index(index: IndexType, offset: u64) -> Result<u64> {
+    u64::from(index)
         .checked_add(offset)
         .ok_or_else(|| Error::new(ErrorKind::Other, "Index too big to be saved in .obj file."))
 }
-- 
2.43.0


From b75a501c85cb9b9f6ae7cdc12937fbec7138a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 18/25] fix: indices in a file that do not fit the index type
 are refused instead of altered

---
 src/tmf_importer.rs | 11 +++++++----
 src/vertices.rs     | 18 +++++++++++++++---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index e2487ed..78d0500 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -3,6 +3,7 @@ use crate::tmf::CompressionType;
 use crate::tmf::{DecodedSegment, EncodedSegment, SectionType};
 use crate::unaligned_rw::UnalignedRWMode;
 use crate::unaligned_rw::UnalignedReader;
+use crate::vertices::index_from_offset;
 use crate::CustomDataSegment;
 use crate::IndexType;
 use crate::MAX_SEG_SIZE;
@@ -272,17 +273,19 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     let precision = UnalignedRWMode::precision_bits(precision_bits);
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
-        data.resize(length as usize, min as IndexType);
+        if length > 0 {
+            data.resize(length as usize, index_from_offset(0, min)?);
+        }
     } else {
         data.reserve(crate::initial_capacity(length as usize));
         for _ in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            data.push(i1.wrapping_add(min) as IndexType);
-            data.push(i2.wrapping_add(min) as IndexType);
+            data.push(index_from_offset(i1, min)?);
+            data.push(index_from_offset(i2, min)?);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            data.push(i.wrapping_add(min) as IndexType);
+            data.push(index_from_offset(i, min)?);
         }
     }
     Ok(())
diff --git a/src/vertices.rs b/src/vertices.rs
index 79f82af..395ad7f 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -191,6 +191,18 @@ pub fn save_triangles<W: Write>(
     }
     writer.flush()
 }
+/// Index stored as an offset from the minimum, if it fits in the index type.
+pub(crate) fn index_from_offset(offset: u64, min: u64) -> Result<IndexType, TMFImportError> {
+    offset
+        .checked_add(min)
+        .and_then(|index| IndexType::try_from(index).ok())
+        .ok_or_else(|| {
+            TMFImportError::IO(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "An index is too large for the index type",
+            ))
+        })
+}
 pub(crate) fn read_triangles<R: Read>(
     reader: &mut R,
     ctx: &crate::tmf_importer::TMFImportContext,
@@ -209,11 +221,11 @@ pub(crate) fn read_triangles<R: Read>(
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push(i1.wrapping_add(min) as IndexType);
-        res.push(i2.wrapping_add(min) as IndexType);
+        res.push(index_from_offset(i1, min)?);
+        res.push(index_from_offset(i2, min)?);
     }
     for _i in 0..length % 2 {
-        res.push(reader.read_unaligned(precision)?.wrapping_add(min) as IndexType);
+        res.push(index_from_offset(reader.read_unaligned(precision)?, min)?);
     }
     Ok(res.into())
 }
-- 
2.43.0


From f94bf595aa8fbbf36907f2e63f27881f266c13eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 19/25] fix: normalize handles huge and tiny double precision
 vectors

---
 src/utilis.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 69e5cbb..094572c 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -50,8 +50,10 @@ pub(crate) fn magnitude(i: Vector3) -> FloatType {
     (xx + yy + zz).sqrt()
 }
 pub(crate) fn normalize(i: Vector3) -> Vector3 {
-    // Squares of big and small numbers do not fit in f32
     let (x, y, z) = (f64::from(i.0), f64::from(i.1), f64::from(i.2));
+    // Squares of big and small numbers do not fit in a float
+    let max = x.abs().max(y.abs()).max(z.abs());
+    let (x, y, z) = (x / max, y / max, z / max);
     let mag = (x * x + y * y + z * z).sqrt();
     if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
-- 
2.43.0


From b687f9f5c966b59c9c12663c5e40d59fecb0dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 20/25] fix: unify_index_data leaves meshes with too many index
 combinations for the index type unaffected

---
 src/lib.rs        |  2 +-
 src/unify_data.rs | 48 +++++++++++++++++++++++++----------------------
 2 files changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a050f3..bbd89e9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -196,7 +196,7 @@ impl TMFMesh {
         }
     }
     /// Changes mesh data to make all index arrays(e.g. `vertex_triangle_array`,`normal_triangle_array`, etc.) exactly the same. Does not support custom index segments,  and will leave them unaffected.
-    /// Very often drastically reduces mesh size. Meshes with index arrays of different lengths, or with indices outside their data arrays can't be unified and are left unaffected.
+    /// Very often drastically reduces mesh size. Meshes with index arrays of different lengths, with indices outside their data arrays, or with more different index combinations than [`IndexType`] can count can't be unified and are left unaffected.
     /// # Example
     /// ```
     /// # use tmf::TMFMesh;
diff --git a/src/unify_data.rs b/src/unify_data.rs
index ceeda5f..fa81985 100644
--- a/src/unify_data.rs
+++ b/src/unify_data.rs
@@ -1,10 +1,11 @@
 #![allow(clippy::type_complexity)]
 use crate::IndexType;
 use std::collections::HashMap;
-/// This function unifies data at index level, returning info necessary for merging to `merge_data`.
+/// This function unifies data at index level, returning info necessary for merging to `merge_data`,
+/// or `None` if there are too many index combinations for `IndexType`.
 fn unfiy_data_common<const DATA_COUNT: usize>(
     indices: &[&[IndexType]],
-) -> (Box<[IndexType]>, Box<[Box<[IndexType]>]>) {
+) -> Option<(Box<[IndexType]>, Box<[Box<[IndexType]>]>)> {
     type ComboType<const DATA_COUNT: usize> = [IndexType; DATA_COUNT];
     let mut combos: HashMap<ComboType<DATA_COUNT>, usize> = HashMap::with_capacity(indices.len());
     assert_eq!(DATA_COUNT, indices.len());
@@ -25,7 +26,7 @@ fn unfiy_data_common<const DATA_COUNT: usize>(
             combo_id += 1;
             id
         });
-        new_indices.push(curr_id as IndexType);
+        new_indices.push(IndexType::try_from(curr_id).ok()?);
         //println!("curr_combo:{curr_combo:?}");
     }
     let mut combos = combos.iter().collect::<Vec<_>>();
@@ -38,14 +39,14 @@ fn unfiy_data_common<const DATA_COUNT: usize>(
         }
     }
     let data_map: Box<[Box<[_]>]> = data_map.iter().map(|v| (*v).clone().into()).collect();
-    (new_indices.into(), data_map)
+    Some((new_indices.into(), data_map))
 }
 pub(crate) fn merge_data_2<A: Copy, B: Copy>(
     indices: &[&[IndexType]; 2],
     a: &[A],
     b: &[B],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>) {
-    let (indices, index_map) = unfiy_data_common::<2>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>)> {
+    let (indices, index_map) = unfiy_data_common::<2>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -54,15 +55,15 @@ pub(crate) fn merge_data_2<A: Copy, B: Copy>(
         .iter()
         .map(|index| b[*index as usize])
         .collect();
-    (indices, a, b)
+    Some((indices, a, b))
 }
 pub(crate) fn merge_data_3<A: Copy, B: Copy, C: Copy>(
     indices: &[&[IndexType]; 3],
     a: &[A],
     b: &[B],
     c: &[C],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>) {
-    let (indices, index_map) = unfiy_data_common::<3>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>)> {
+    let (indices, index_map) = unfiy_data_common::<3>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -75,7 +76,7 @@ pub(crate) fn merge_data_3<A: Copy, B: Copy, C: Copy>(
         .iter()
         .map(|index| c[*index as usize])
         .collect();
-    (indices, a, b, c)
+    Some((indices, a, b, c))
 }
 pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
     indices: &[&[IndexType]; 4],
@@ -83,8 +84,8 @@ pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
     b: &[B],
     c: &[C],
     d: &[D],
-) -> (Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>, Box<[D]>) {
-    let (indices, index_map) = unfiy_data_common::<4>(indices);
+) -> Option<(Box<[IndexType]>, Box<[A]>, Box<[B]>, Box<[C]>, Box<[D]>)> {
+    let (indices, index_map) = unfiy_data_common::<4>(indices)?;
     let a: Box<[_]> = index_map[0]
         .iter()
         .map(|index| a[*index as usize])
@@ -101,7 +102,7 @@ pub(crate) fn merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
         .iter()
         .map(|index| d[*index as usize])
         .collect();
-    (indices, a, b, c, d)
+    Some((indices, a, b, c, d))
 }
 type OBoxArr<A> = Option<Box<[A]>>;
 fn is_merge_needed(indices: &[Option<&[IndexType]>]) -> bool {
@@ -141,8 +142,10 @@ fn smart_merge_data_2<A: Copy, B: Copy>(
         return (None, None, None);
     }
     if let Some(((a, indices_a), (b, indices_b))) = a.zip(indices[0]).zip(b.zip(indices[1])) {
-        let (indices, a, b) = merge_data_2(&[indices_a, indices_b], a, b);
-        (Some(a), Some(b), Some(indices))
+        match merge_data_2(&[indices_a, indices_b], a, b) {
+            Some((indices, a, b)) => (Some(a), Some(b), Some(indices)),
+            None => (None, None, None),
+        }
     } else {
         (None, None, None)
     }
@@ -170,8 +173,10 @@ pub(crate) fn smart_merge_data_3<A: Copy, B: Copy, C: Copy>(
         .zip(b.zip(indices[1]))
         .zip(c.zip(indices[2]))
     {
-        let (indices, a, b, c) = merge_data_3(&[indices_a, indices_b, indices_c], a, b, c);
-        (Some(a), Some(b), Some(c), Some(indices))
+        match merge_data_3(&[indices_a, indices_b, indices_c], a, b, c) {
+            Some((indices, a, b, c)) => (Some(a), Some(b), Some(c), Some(indices)),
+            None => (None, None, None, None),
+        }
     } else {
         (None, None, None, None)
     }
@@ -218,11 +223,10 @@ pub(crate) fn smart_merge_data_4<A: Copy, B: Copy, C: Copy, D: Copy>(
         .zip(b.zip(indices[1]))
         .zip(c.zip(indices[2]).zip(d.zip(indices[3])))
     {
-        let d: &[D] = d;
-        let (indices, a, b, c, d) =
-            merge_data_4(&[indices_a, indices_b, indices_c, indices_d], a, b, c, d);
-        let d: Box<[D]> = d;
-        (Some(a), Some(b), Some(c), Some(d), Some(indices))
+        match merge_data_4(&[indices_a, indices_b, indices_c, indices_d], a, b, c, d) {
+            Some((indices, a, b, c, d)) => (Some(a), Some(b), Some(c), Some(d), Some(indices)),
+            None => (None, None, None, None, None),
+        }
     } else {
         (None, None, None, None, None)
     }
-- 
2.43.0


From f0ead5af7d272e00af86097cb358c40394d0c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:49 +0000
Subject: [PATCH 21/25] fix: .obj import accepts the biggest index that fits
 the index type

---
 src/obj.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 7681f84..131a72f 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -56,10 +56,11 @@ fn invalid_index() -> Error {
     Error::new(ErrorKind::Other, "Invalid index!")
 }
 fn parse_index(uint: &str) -> Result<IndexType> {
-    // Indices in .obj files start from 1
-    uint.parse::<IndexType>()
+    // Indices in .obj files start from 1, so the biggest one does not have to fit the index type
+    uint.parse::<u64>()
         .ok()
         .and_then(|index| index.checked_sub(1))
+        .and_then(|index| IndexType::try_from(index).ok())
         .ok_or_else(invalid_index)
 }
 fn match_split(split: Option<&str>) -> Result<&str> {
-- 
2.43.0


From a898e1d4ff7badf8be6a283cc883d609a68994f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:26 +0000
Subject: [PATCH 22/25] fix: the error for a sequence-compressed segment names
 that compression type

---
 src/tmf_importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 78d0500..2d9f6fe 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -308,7 +308,7 @@ pub(crate) async fn decode_triangle_seg(
             CompressionType::None => read_default_triangles(data, &mut indices, ctx)?,
             CompressionType::Sequence => {
                 return Err(TMFImportError::UnsuportedCompressionType(
-                    CompressionType::Ommited as u8,
+                    CompressionType::Sequence as u8,
                 ))
             } //read_triangle_sequence(data, &mut indices)?,
             CompressionType::Ommited => {
-- 
2.43.0


From 72df7e36622efa4aa3ebdc056c7cf75a93db501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:01 +0000
Subject: [PATCH 23/25] fix: reorder_data leaves arrays with indices outside of
 them unaffected

---
 src/lib.rs    | 2 +-
 src/utilis.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bbd89e9..006080e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -152,7 +152,7 @@ impl Default for TMFMesh {
     }
 }
 impl TMFMesh {
-    /// Reorders mesh data to be more efficiently laid out. Reduces mesh size slightly. Not needed if [`Self::unify_index_data`] was called before.
+    /// Reorders mesh data to be more efficiently laid out. Reduces mesh size slightly. Not needed if [`Self::unify_index_data`] was called before. Arrays with indices outside of them are left unaffected.
     /// # Example
     /// ```
     /// # use tmf::{TMFMesh,Vector3,IndexType};
diff --git a/src/utilis.rs b/src/utilis.rs
index 094572c..beceadb 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -92,7 +92,7 @@ pub(crate) fn optimize_triangle_indices<T: Sized + Copy + std::fmt::Debug>(
     indices: &[IndexType],
     data: &[T],
 ) -> (Box<[IndexType]>, Box<[T]>) {
-    if indices.is_empty() || data.is_empty() {
+    if indices.is_empty() || indices.iter().any(|index| *index as usize >= data.len()) {
         return (indices.into(), data.into());
     }
     const INDEX_NOT_MAPPED: usize = usize::MAX;
-- 
2.43.0


From 9cead4cf066793e00e57d8be28e6d3acfc8cd809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:13 +0000
Subject: [PATCH 24/25] fix: importing .obj files of many meshes does not copy
 all data for each of them

---
 src/model_importer.rs | 9 +++------
 src/utilis.rs         | 7 ++++---
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index be3e51b..c0159c5 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -41,7 +41,6 @@ impl ModelImporter {
     fn take_mesh(&mut self) -> TMFMesh {
         let mut mesh = TMFMesh::empty();
 
-        let mut vertices = self.vertices.clone();
         let mut vertex_triangles = std::mem::take(&mut self.vertex_triangles);
         let mut normal_triangles = std::mem::take(&mut self.normal_triangles);
         let mut uv_triangles = std::mem::take(&mut self.uv_triangles);
@@ -50,20 +49,18 @@ impl ModelImporter {
         let has_normals = !normal_triangles.is_empty() || vertex_triangles.is_empty();
         let has_uvs = !uv_triangles.is_empty() || vertex_triangles.is_empty();
 
-        crate::utilis::fast_prune(&mut vertices, &mut vertex_triangles);
+        let vertices = crate::utilis::fast_prune(&self.vertices, &mut vertex_triangles);
 
         mesh.set_vertices(vertices);
         mesh.set_vertex_triangles(vertex_triangles);
 
         if has_normals {
-            let mut normals = self.normals.clone();
-            crate::utilis::fast_prune(&mut normals, &mut normal_triangles);
+            let normals = crate::utilis::fast_prune(&self.normals, &mut normal_triangles);
             mesh.set_normals(normals);
             mesh.set_normal_triangles(normal_triangles);
         }
         if has_uvs {
-            let mut uvs = self.uvs.clone();
-            crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
+            let uvs = crate::utilis::fast_prune(&self.uvs, &mut uv_triangles);
             mesh.set_uvs(uvs);
             mesh.set_uv_triangles(uv_triangles);
         }
diff --git a/src/utilis.rs b/src/utilis.rs
index beceadb..01aec17 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -3,7 +3,8 @@
 use crate::{FloatType, IndexType, Vector3};
 /// Fast method for pruning unused vertices. Finds the lowest used vertex and removes it. O(n), does **not** remove all unused vertices. Used mostly
 /// in .obj loading. Fast because if not needed exits quickly.
-pub(crate) fn fast_prune<T: Sized>(data: &mut Vec<T>, indices: &mut [IndexType]) {
+/// Copies only what is kept, so that loading many small meshes does not copy all data of a file for each of them.
+pub(crate) fn fast_prune<T: Clone>(data: &[T], indices: &mut [IndexType]) -> Vec<T> {
     // Smallest index
     let mut min_index = data.len() as IndexType;
     if indices.is_empty() {
@@ -11,15 +12,15 @@ pub(crate) fn fast_prune<T: Sized>(data: &mut Vec<T>, indices: &mut [IndexType])
     }
     for index in indices.iter() {
         if *index == 0 {
-            return;
+            return data.to_vec();
         };
         min_index = min_index.min(*index);
     }
-    data.drain(0..(min_index as usize));
     // Begin index rebasing
     for index in &mut *indices {
         *index -= min_index;
     }
+    data[(min_index as usize)..].to_vec()
 }
 #[allow(non_camel_case_types)]
 #[cfg(feature = "fast_trig")]
-- 
2.43.0


From ee4df5129ca62b18ba7ef881173d5ddb1c1543f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:13 +0000
Subject: [PATCH 25/25] fix: UnalignedWriter::flush writes the last bits,
 reported errors do not panic on drop

---
 src/unaligned_rw.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 728b21f..04ba803 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -155,17 +155,15 @@ pub struct UnalignedWriter<W: Write> {
     next_byte: u8,
     /// Amount of bit already written in this byte.
     written: u8,
+    /// Set once an error was returned to the user, who then knows that the output is incomplete.
+    failed: bool,
 }
 impl<W: Write> Drop for UnalignedWriter<W> {
     fn drop(&mut self) {
-        if self.written > 0 {
-            self.writer
-                .write_all(&[self.next_byte])
-                .expect("Unaligned writer failed to write last byte when dropped")
-        };
-        self.writer
-            .flush()
-            .expect("Unaligned writer failed to flush when dropped");
+        if !self.failed {
+            self.flush()
+                .expect("Unaligned writer failed to flush when dropped");
+        }
     }
 }
 impl<W: Write> UnalignedWriter<W> {
@@ -177,6 +175,7 @@ impl<W: Write> UnalignedWriter<W> {
             next_byte,
             written,
             writer,
+            failed: false,
         }
     }
     /// Writes exactly one bit from UBA.
@@ -216,16 +215,30 @@ impl<W: Write> UnalignedWriter<W> {
             total_write -= curr_write;
             // If full byte written, write(flush) it to output, and reset other parameters to prepare for next writes
             if self.written >= 8 {
-                self.writer.write_all(&[self.next_byte])?;
-                self.written = 0;
-                self.next_byte = 0;
+                self.write_next_byte()?;
             }
         }
         Ok(())
     }
+    /// Writes(flushes) next byte to output, and resets other parameters to prepare for next writes
+    fn write_next_byte(&mut self) -> Result<()> {
+        if let Err(err) = self.writer.write_all(&[self.next_byte]) {
+            self.failed = true;
+            return Err(err);
+        }
+        self.written = 0;
+        self.next_byte = 0;
+        Ok(())
+    }
     /// This function should be called when and *ONLY* when writer is no longer in use. It flushes the writer an allows user to handle errors.
     pub fn flush(&mut self) -> Result<()> {
-        self.writer.flush()
+        // The last byte may be only partially filled.
+        if self.written > 0 {
+            self.write_next_byte()?;
+        }
+        let res = self.writer.flush();
+        self.failed = res.is_err();
+        res
     }
 }
 #[derive(Clone, Copy)]
-- 
2.43.0

