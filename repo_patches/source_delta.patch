From 4e24870e0089ab7b77a134b8a59291bd9590ff94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 01/21] fix: report the size of CString values including their
 terminator

---
 ssbh_lib/src/strings.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 310d2e6..4e87a54 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -147,7 +147,13 @@ impl<const N: usize> crate::SsbhWrite for CString<N> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        self.0.size_in_bytes()
+        if self.0.is_empty() {
+            // Empty strings are written as N null bytes.
+            N as u64
+        } else {
+            // Include the null terminator.
+            self.0.len() as u64 + 1
+        }
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From 45cce7d1ec27b3ade38c09edf78360d6aa1cec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 02/21] fix: leave the file untouched when saving fails

---
 ssbh_lib/src/lib.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ssbh_lib/src/lib.rs b/ssbh_lib/src/lib.rs
index a2662e4..6cee511 100644
--- a/ssbh_lib/src/lib.rs
+++ b/ssbh_lib/src/lib.rs
@@ -195,8 +195,7 @@ impl SsbhFile {
     /// Writes the data to the given path.
     /// The entire file is buffered for performance.
     pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-        let mut file = std::fs::File::create(path)?;
-        write_buffered(&mut file, |c| write_ssbh_header_and_data(c, &self.data))?;
+        write_buffered(path, |c| write_ssbh_header_and_data(c, &self.data))?;
         Ok(())
     }
 }
@@ -251,8 +250,7 @@ macro_rules! ssbh_read_write_impl {
             /// Tries to write the current SSBH type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| write_ssbh_file(c, self, $magic))?;
+                write_buffered(path, |c| write_ssbh_file(c, self, $magic))?;
                 Ok(())
             }
         }
@@ -289,8 +287,7 @@ macro_rules! read_write_impl {
             /// Tries to write the type to `path`.
             /// The entire file is buffered for performance.
             pub fn write_to_file<P: AsRef<Path>>(&self, path: P) -> std::io::Result<()> {
-                let mut file = std::fs::File::create(path)?;
-                write_buffered(&mut file, |c| self.write(c))?;
+                write_buffered(path, |c| self.write(c))?;
                 Ok(())
             }
         }
@@ -772,10 +769,10 @@ pub(crate) fn write_ssbh_header_and_data<W: Write + Seek>(
 }
 
 pub(crate) fn write_buffered<
-    W: Write + Seek,
+    P: AsRef<Path>,
     F: Fn(&mut Cursor<Vec<u8>>) -> std::io::Result<()>,
 >(
-    writer: &mut W,
+    path: P,
     write_data: F,
 ) -> std::io::Result<()> {
     // Buffer the entire write operation into memory to improve performance.
@@ -783,8 +780,8 @@ pub(crate) fn write_buffered<
     let mut cursor = Cursor::new(Vec::new());
     write_data(&mut cursor)?;
 
-    writer.write_all(cursor.get_mut())?;
-    Ok(())
+    // Only touch the file once the data is known to be valid.
+    fs::write(path, cursor.get_ref())
 }
 
 // TODO: This can probably just be derived.
-- 
2.43.0


From 57f3196fb5458fef15776fb1fcbf441746d930c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 03/21] fix: don't wrap large parent bone indices

---
 ssbh_data/src/skel_data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index f86955c..a71de22 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -167,7 +167,8 @@ impl TryFrom<&SkelData> for Skel {
                     name: b.name.clone().into(),
                     index: i as u16,
                     parent_index: match b.parent_index {
-                        Some(index) => index as i16,
+                        // Indices that don't fit can't refer to an existing bone.
+                        Some(index) => index.try_into().unwrap_or(-1),
                         None => -1,
                     },
                     // TODO: Preserve or calculate flags?
-- 
2.43.0


From 0c5ffe05349163f09c87b38d7a8c8daa4388adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 04/21] fix: refuse to save skels with unsupported versions

---
 ssbh_data/src/skel_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index a71de22..130ad2a 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -152,6 +152,13 @@ impl TryFrom<&SkelData> for Skel {
     type Error = error::Error;
 
     fn try_from(data: &SkelData) -> Result<Self, Self::Error> {
+        if (data.major_version, data.minor_version) != (1, 0) {
+            return Err(error::Error::UnsupportedVersion {
+                major_version: data.major_version,
+                minor_version: data.minor_version,
+            });
+        }
+
         let world_transforms = data
             .bones
             .iter()
-- 
2.43.0


From 6afd85baad666f1b30ea6a9cc223c1ceae483a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 05/21] fix: return an error for missing rotation sign bits

---
 ssbh_data/src/anim_data/bitutils.rs    | 7 +++++++
 ssbh_data/src/anim_data/compression.rs | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/ssbh_data/src/anim_data/bitutils.rs b/ssbh_data/src/anim_data/bitutils.rs
index 9dead58..dca2cb0 100644
--- a/ssbh_data/src/anim_data/bitutils.rs
+++ b/ssbh_data/src/anim_data/bitutils.rs
@@ -20,6 +20,13 @@ impl BitReader {
         }
     }
 
+    pub fn check_remaining(&self, bit_count: usize) -> Result<(), BitReadError> {
+        if self.bits.len() - self.index < bit_count {
+            return Err(BitReadError::NotEnoughBits);
+        }
+        Ok(())
+    }
+
     pub fn read_u8(&mut self, bit_count: usize) -> Result<u8, BitReadError> {
         let value: u8 = self
             .bits
diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index a6356d0..9f633d8 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -461,6 +461,8 @@ impl CompressedData for UncompressedTransform {
         };
 
         let rotation_w = if args.has_rotation() {
+            // The sign bit for w may be missing in malformed files.
+            reader.check_remaining(1)?;
             calculate_rotation_w(reader, rotation_xyz)
         } else {
             default.rotation.w
-- 
2.43.0


From 59ae567616a22a527cfc01d3e97998c6a36659bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 06/21] fix: don't overflow when decompressing pattern indices

---
 ssbh_data/src/anim_data/compression.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 9f633d8..29df801 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -767,7 +767,10 @@ impl CompressedData for u32 {
         let value = if compression.bit_count == 0 {
             compression.min
         } else {
-            reader.read_u32(compression.bit_count as usize)? + compression.min
+            // Avoid an overflow for malformed files.
+            reader
+                .read_u32(compression.bit_count as usize)?
+                .wrapping_add(compression.min)
         };
         Ok(value)
     }
-- 
2.43.0


From ce5e897ef6d87ab26d1f9d44d3ba4295709e3def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 07/21] fix: preserve pattern indices with a range over 24 bits

---
 ssbh_data/src/anim_data/compression.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data/compression.rs b/ssbh_data/src/anim_data/compression.rs
index 29df801..c8a1a9b 100644
--- a/ssbh_data/src/anim_data/compression.rs
+++ b/ssbh_data/src/anim_data/compression.rs
@@ -790,12 +790,21 @@ impl CompressedData for u32 {
     fn get_args(_: &CompressedHeader<Self>) -> Self::CompressionArgs {}
 
     fn get_default_and_compression(values: &[Self], _: bool) -> (Self, Self::Compression) {
+        let min = values.iter().copied().min().unwrap_or(0);
+        let max = values.iter().copied().max().unwrap_or(0);
+        // TODO: How should this work for u32?
+        // Use more bits for large ranges since the values should be lossless.
+        let bit_count = if max - min < 1 << DEFAULT_F32_BIT_COUNT {
+            DEFAULT_F32_BIT_COUNT
+        } else {
+            32
+        };
         (
             0, // TODO: Better default?
             U32Compression {
-                min: values.iter().copied().min().unwrap_or(0),
-                max: values.iter().copied().max().unwrap_or(0),
-                bit_count: super::compression::DEFAULT_F32_BIT_COUNT, // TODO: How should this work for u32?
+                min,
+                max,
+                bit_count,
             },
         )
     }
-- 
2.43.0


From 0c9b3fbe63864e5d8d00dd8cb12c16ee34d8ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 08/21] fix: return an error for malformed version 1.2 anim
 tracks

---
 ssbh_data/src/anim_data.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 470f9a5..9135190 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -395,12 +395,11 @@ fn read_groups_v12(
     // Group by the track type.
     let mut tracks_by_type = HashMap::new();
 
-    // TODO: Avoid unwrap.
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
-        let track_data = create_track_data_v12(track, buffers).unwrap();
+        let track_data = create_track_data_v12(track, buffers)?;
         tracks_by_type
             .entry(group_type)
             .or_insert(Vec::new())
@@ -471,7 +470,10 @@ fn create_track_data_v12(
             0x4308 => {
                 println!("{:?}", reader.read_le::<V12Test3>()?);
                 // Assume the remainder is the compressed buffer.
-                println!("Compressed: {:?} bytes", data.elements.len() - 72 - 4);
+                println!(
+                    "Compressed: {:?} bytes",
+                    data.elements.len().saturating_sub(72 + 4)
+                );
             }
             0x4409 => {
                 let test = reader.read_le::<V12Test2>()?;
-- 
2.43.0


From b772274f9c3af7e90faa4957d945cdecf0eea26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 09/21] fix: keep the track order when reading version 1.2
 anims

---
 ssbh_data/src/anim_data.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index 9135190..c99a3ea 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -50,7 +50,6 @@ use ssbh_lib::{
     SsbhArray, Vector3, Vector4, Version,
 };
 use ssbh_write::SsbhWrite;
-use std::collections::HashMap;
 use std::{
     convert::{TryFrom, TryInto},
     error::Error,
@@ -393,17 +392,19 @@ fn read_groups_v12(
     buffers: &[ssbh_lib::SsbhByteBuffer],
 ) -> Result<Vec<GroupData>, error::Error> {
     // Group by the track type.
-    let mut tracks_by_type = HashMap::new();
+    // Keep the order of the file to make reading the same file always give the same groups.
+    let mut tracks_by_type: Vec<(GroupType, Vec<_>)> = Vec::new();
 
     // Node names like bones names are set at the track level for anim 1.2.
     // Save the track name to use for the nodes later.
     for track in tracks {
         let group_type = group_type_v12(track.track_type);
         let track_data = create_track_data_v12(track, buffers)?;
-        tracks_by_type
-            .entry(group_type)
-            .or_insert(Vec::new())
-            .push((track.name.to_string_lossy(), track_data));
+        let track = (track.name.to_string_lossy(), track_data);
+        match tracks_by_type.iter_mut().find(|(t, _)| *t == group_type) {
+            Some((_, tracks)) => tracks.push(track),
+            None => tracks_by_type.push((group_type, vec![track])),
+        }
     }
 
     // Use the grouping conventions for version 2.0+ anims.
-- 
2.43.0


From 66da358b8943224e66115533515981cc80804e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 10/21] fix: don't allocate unchecked lengths when reading
 version 1.2 anim buffers

---
 ssbh_data/src/anim_data.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ssbh_data/src/anim_data.rs b/ssbh_data/src/anim_data.rs
index c99a3ea..21153cf 100644
--- a/ssbh_data/src/anim_data.rs
+++ b/ssbh_data/src/anim_data.rs
@@ -36,8 +36,8 @@ for group in anim.groups {
 //! When converting to [Anim], compression is enabled for a track if compression would save space.
 //! This may produce differences with the original due to compression differences.
 //! These errors are small in practice but may cause gameplay differences such as online desyncs.
-use binrw::io::{Cursor, Seek, Write};
-use binrw::{BinRead, BinReaderExt};
+use binrw::io::{Cursor, Read, Seek, Write};
+use binrw::{BinRead, BinReaderExt, BinResult};
 #[cfg(feature = "serde")]
 use serde::{Deserialize, Serialize};
 pub use ssbh_lib::formats::anim::GroupType;
@@ -814,12 +814,23 @@ struct V12Test2 {
     // TODO: Compressed data?
 }
 
+// Grow the result while reading to avoid large allocations for malformed lengths.
+#[binrw::parser(reader)]
+fn read_bytes(count: u32) -> BinResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    let bytes_read = reader.take(count as u64).read_to_end(&mut bytes)?;
+    if bytes_read != count as usize {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 #[allow(dead_code)]
 #[derive(Debug, BinRead)]
 struct V12Test3 {
     frame_count: u32,
     unk1: f32,
-    #[br(count = frame_count, align_after = 4)] // align to float boundary
+    #[br(parse_with = read_bytes, args(frame_count), align_after = 4)] // align to float boundary
     unk2: Vec<u8>, // TODO: key frames?
     unk3: [Vector3; 3],
     // TODO: Compressed data?
-- 
2.43.0


From 0594c7e5f1a20e81f128231dad03c0dcd662c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 11/21] fix: save version 1.5 matl files as documented

---
 ssbh_data/src/matl_data.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ssbh_data/src/matl_data.rs b/ssbh_data/src/matl_data.rs
index d00b762..d741ce9 100644
--- a/ssbh_data/src/matl_data.rs
+++ b/ssbh_data/src/matl_data.rs
@@ -505,6 +505,9 @@ impl TryFrom<&MatlData> for Matl {
 
     fn try_from(value: &MatlData) -> Result<Self, Self::Error> {
         match (value.major_version, value.minor_version) {
+            (1, 5) => Ok(Self::V15 {
+                entries: value.entries.iter().map(Into::into).collect_vec().into(),
+            }),
             (1, 6) => Ok(Self::V16 {
                 entries: value.entries.iter().map(Into::into).collect_vec().into(),
             }),
-- 
2.43.0


From 8965dbbecb661cb761f7a1daffb77e69b5a14caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 12/21] fix: keep the blend operations and alpha factors of
 version 1.5 matl blend states

---
 ssbh_data/src/matl_data.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ssbh_data/src/matl_data.rs b/ssbh_data/src/matl_data.rs
index d741ce9..0a4bec3 100644
--- a/ssbh_data/src/matl_data.rs
+++ b/ssbh_data/src/matl_data.rs
@@ -354,11 +354,11 @@ impl From<&BlendStateData> for BlendStateV15 {
         // TODO: Should data loss from unsupported fields be an error?
         Self {
             source_color: v.source_color,
-            color_operation: BlendOperation::Add,
+            color_operation: v.color_operation,
             destination_color: v.destination_color,
-            source_alpha: BlendFactor::One,
-            alpha_operation: BlendOperation::Add,
-            destination_alpha: BlendFactor::Zero,
+            source_alpha: v.source_alpha,
+            alpha_operation: v.alpha_operation,
+            destination_alpha: v.destination_alpha,
             unk6: 0,
             unk7: 0,
             unk8: 5,
-- 
2.43.0


From 5155c5ae9dd4aa56ee350dd4d22c58f2c557d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:00 +0000
Subject: [PATCH 13/21] fix: refuse adjacency data whose object indices or
 offsets do not fit 32 bits

---
 ssbh_data/src/adj_data.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ssbh_data/src/adj_data.rs b/ssbh_data/src/adj_data.rs
index 446ff6b..e901921 100644
--- a/ssbh_data/src/adj_data.rs
+++ b/ssbh_data/src/adj_data.rs
@@ -137,15 +137,22 @@ impl TryFrom<&AdjData> for Adj {
             entries: data
                 .entries
                 .iter()
-                .scan(0, |offset, e| {
-                    let entry = AdjEntry {
-                        mesh_object_index: e.mesh_object_index as u32,
-                        index_buffer_offset: *offset as u32,
+                .scan(0, |offset: &mut usize, e| {
+                    // Indices and offsets are stored as 32-bit values.
+                    let to_u32 = |x| {
+                        u32::try_from(x)
+                            .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidInput, e))
                     };
+                    let entry = to_u32(e.mesh_object_index).and_then(|mesh_object_index| {
+                        Ok(AdjEntry {
+                            mesh_object_index,
+                            index_buffer_offset: to_u32(*offset)?,
+                        })
+                    });
                     *offset += e.vertex_adjacency.len() * std::mem::size_of::<i16>();
                     Some(entry)
                 })
-                .collect(),
+                .collect::<Result<_, _>>()?,
             index_buffer: data
                 .entries
                 .iter()
-- 
2.43.0


From cecb37f744620ba79c09bc95ba94ee3cf2e91aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 14/21] fix: return errors for malformed shader binaries
 instead of panicking

---
 ssbh_data/src/shdr_data.rs | 90 +++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/ssbh_data/src/shdr_data.rs b/ssbh_data/src/shdr_data.rs
index 38ac8fb..f5bd3f5 100644
--- a/ssbh_data/src/shdr_data.rs
+++ b/ssbh_data/src/shdr_data.rs
@@ -36,38 +36,37 @@ pub struct MetaData {
 }
 
 impl MetaData {
-    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
+    fn new<R: Read + Seek>(reader: &mut R, shader: &ShaderBinary) -> BinResult<Self> {
+        Ok(Self {
             buffers: shader
                 .header
                 .buffer_entries
                 .0
                 .iter()
                 .map(|e| Buffer::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             uniforms: shader
                 .header
                 .uniforms
                 .0
                 .iter()
                 .map(|e| Uniform::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             inputs: shader
                 .header
                 .inputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
+                .collect::<BinResult<_>>()?,
             outputs: shader
                 .header
                 .outputs
                 .0
                 .iter()
                 .map(|e| Attribute::new(reader, &shader.header, e))
-                .collect(),
-        }
+                .collect::<BinResult<_>>()?,
+        })
     }
 }
 
@@ -85,17 +84,16 @@ pub struct Buffer {
 }
 
 impl Buffer {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &BufferEntry) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             used_size_in_bytes: e.used_size_in_bytes,
             uniform_count: e.uniform_entry_count,
             unk4: e.unk4,
             unk5: e.unk5,
             unk6: e.unk6,
             unk7: e.unk7,
-        }
+        })
     }
 }
 
@@ -111,15 +109,18 @@ pub struct Uniform {
 }
 
 impl Uniform {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &UniformEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &UniformEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             buffer_index: e.buffer_index,
             uniform_buffer_offset: e.uniform_buffer_offset,
             unk11: e.unk11,
-        }
+        })
     }
 }
 
@@ -133,13 +134,16 @@ pub struct Attribute {
 }
 
 impl Attribute {
-    fn new<R: Read + Seek>(reader: &mut R, header: &UnkHeader, e: &AttributeEntry) -> Self {
-        // TODO: Avoid unwrap.
-        Self {
-            name: read_string(reader, header, &e.name).unwrap(),
+    fn new<R: Read + Seek>(
+        reader: &mut R,
+        header: &UnkHeader,
+        e: &AttributeEntry,
+    ) -> BinResult<Self> {
+        Ok(Self {
+            name: read_string(reader, header, &e.name)?,
             data_type: e.data_type,
             location: e.location,
-        }
+        })
     }
 }
 
@@ -150,12 +154,12 @@ impl MetaData {
     ) -> Result<Self, Box<dyn std::error::Error>> {
         let mut reader = Cursor::new(std::fs::read(path)?);
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(&mut reader, &shader))
+        Self::new(&mut reader, &shader).map_err(Into::into)
     }
 
     pub fn read<R: Read + Seek>(reader: &mut R) -> Result<Self, Box<dyn std::error::Error>> {
         let shader: ShaderBinary = reader.read_le()?;
-        Ok(Self::new(reader, &shader))
+        Self::new(reader, &shader).map_err(Into::into)
     }
 }
 
@@ -179,7 +183,7 @@ pub struct ShaderBinary {
     code_length: u32,
 
     // TODO: header size of 80 bytes (0x50)?
-    #[br(seek_before = SeekFrom::Start(2896), count = code_length)]
+    #[br(seek_before = SeekFrom::Start(2896), parse_with = read_bytes, args(code_length as usize))]
     pub program_code: Vec<u8>,
     // float constants?
 }
@@ -366,6 +370,18 @@ pub enum DataType {
     Image2d = 103,
 }
 
+#[binrw::parser(reader)]
+fn read_bytes(count: usize) -> BinResult<Vec<u8>> {
+    // Don't allocate space for bytes the reader doesn't have.
+    let mut bytes = Vec::new();
+    reader.take(count as u64).read_to_end(&mut bytes)?;
+    if bytes.len() == count {
+        Ok(bytes)
+    } else {
+        Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into())
+    }
+}
+
 fn read_string<R: Read + Seek>(
     reader: &mut R,
     header: &UnkHeader,
@@ -374,14 +390,17 @@ fn read_string<R: Read + Seek>(
     let strings_start = header.entry_offset as u64 + header.string_section_relative_offset as u64;
     reader.seek(SeekFrom::Start(strings_start + s.offset as u64))?;
 
-    let mut bytes = vec![0u8; (s.length as usize).saturating_sub(1)];
-    reader.read_exact(&mut bytes)?;
+    let bytes = read_bytes(
+        reader,
+        binrw::Endian::Little,
+        ((s.length as usize).saturating_sub(1),),
+    )?;
 
     Ok(String::from_utf8_lossy(&bytes).to_string())
 }
 
 impl TryFrom<Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: Shdr) -> Result<Self, Self::Error> {
         Self::try_from(&shdr)
@@ -389,11 +408,10 @@ impl TryFrom<Shdr> for ShdrData {
 }
 
 impl TryFrom<&Shdr> for ShdrData {
-    type Error = std::convert::Infallible;
+    type Error = binrw::Error;
 
     fn try_from(shdr: &Shdr) -> Result<Self, Self::Error> {
         // TODO: Rebuild Shdr from ShdrData?
-        // TODO: Avoid unwrap.
         Ok(Self {
             shaders: match shdr {
                 Shdr::V12 { shaders } => shaders
@@ -401,14 +419,14 @@ impl TryFrom<&Shdr> for ShdrData {
                     .iter()
                     .map(|s| {
                         let mut reader = Cursor::new(&s.shader_binary.elements);
-                        let shader: ShaderBinary = reader.read_le().unwrap();
-                        ShaderEntryData {
+                        let shader: ShaderBinary = reader.read_le()?;
+                        Ok(ShaderEntryData {
                             name: s.name.to_string_lossy(),
                             shader_stage: s.shader_stage,
-                            meta_data: MetaData::new(&mut reader, &shader),
-                        }
+                            meta_data: MetaData::new(&mut reader, &shader)?,
+                        })
                     })
-                    .collect(),
+                    .collect::<BinResult<_>>()?,
             },
         })
     }
-- 
2.43.0


From b4af2421b30080c83124bac61ceb9a508b03d612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:36 +0000
Subject: [PATCH 15/21] fix: use the .nufxlb extension for Nufx files converted
 from JSON

---
 ssbh_lib_json/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ssbh_lib_json/src/main.rs b/ssbh_lib_json/src/main.rs
index 2a7b223..5ea4a72 100644
--- a/ssbh_lib_json/src/main.rs
+++ b/ssbh_lib_json/src/main.rs
@@ -68,7 +68,7 @@ fn read_json_write_data<P: AsRef<Path>>(input_path: P, output_path: Option<Strin
             Ssbh::Anim(_) => "nuanmb",
             Ssbh::Nlst(_) => "nulstb",
             Ssbh::Nrpd(_) => "nurpdb",
-            Ssbh::Nufx(_) => "nuflxb",
+            Ssbh::Nufx(_) => "nufxlb",
             Ssbh::Shdr(_) => "nushdb",
         });
 
-- 
2.43.0


From adb0d29c9efe0302132e83cf718a081185c2674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 16/21] fix: report the size of lists whose elements have
 different sizes

---
 ssbh_write/src/lib.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/ssbh_write/src/lib.rs b/ssbh_write/src/lib.rs
index 9db1125..06a4212 100644
--- a/ssbh_write/src/lib.rs
+++ b/ssbh_write/src/lib.rs
@@ -123,11 +123,8 @@ impl<T: SsbhWrite> SsbhWrite for &[T] {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // TODO: This won't work for Vec<Option<T>> since only the first element is checked.
-        match self.first() {
-            Some(element) => self.len() as u64 * element.size_in_bytes(),
-            None => 0,
-        }
+        // The elements may differ in size, for example Vec<Option<T>>.
+        self.iter().map(|element| element.size_in_bytes()).sum()
     }
 
     fn alignment_in_bytes() -> u64 {
@@ -277,11 +274,7 @@ impl<T: SsbhWrite> SsbhWrite for Vec<T> {
     }
 
     fn size_in_bytes(&self) -> u64 {
-        // Assume each element has the same size.
-        match self.first() {
-            Some(first) => self.len() as u64 * first.size_in_bytes(),
-            None => 0,
-        }
+        self.as_slice().size_in_bytes()
     }
 
     fn alignment_in_bytes() -> u64 {
-- 
2.43.0


From 7118350831bd33dc3f4bccadd82c587e09513535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 17/21] fix: write the magic of tuple structs and enums that is
 counted in their size

---
 ssbh_write_derive/src/lib.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 52fbcb5..86c1aed 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -155,7 +155,9 @@ fn write_data_calculate_size_enum(
             }
         })
         .collect();
+    let write_magic = write_magic(write_options);
     let write_variants = quote! {
+        #write_magic
         match self {
             #(
                 #write_variants
@@ -221,9 +223,10 @@ fn write_data_calculate_size_unnamed(
 ) -> (TokenStream2, TokenStream2) {
     let add_fields = size_unnamed_fields(fields, true);
 
+    let write_magic = write_magic(write_options);
     let write_fields = write_unnamed_fields(fields, true);
     (
-        quote! { #(#write_fields)* },
+        quote! { #write_magic #(#write_fields)* },
         generate_size_calculation(
             quote! {
                 size += ( #(#add_fields)+* );
@@ -240,12 +243,7 @@ fn write_data_calculate_size_named(
 ) -> (TokenStream2, TokenStream2) {
     let write_fields = write_named_fields(fields, true);
 
-    // TODO: This is shared with enums, unnamed fields, etc?
-    let write_magic = if let Some(magic) = &write_options.magic {
-        quote! { #magic.ssbh_write(writer, data_ptr)?; }
-    } else {
-        quote! {}
-    };
+    let write_magic = write_magic(write_options);
 
     let write_fields = quote! {
         #write_magic
@@ -350,6 +348,13 @@ fn generate_ssbh_write(
     expanded
 }
 
+fn write_magic(write_options: &WriteOptions) -> TokenStream2 {
+    match &write_options.magic {
+        Some(magic) => quote! { #magic.ssbh_write(writer, data_ptr)?; },
+        None => quote! {},
+    }
+}
+
 fn write_pad_after(write_options: &WriteOptions) -> TokenStream2 {
     match write_options.pad_after {
         Some(num_bytes) => quote! { writer.write_all(&[0u8; #num_bytes])?; },
-- 
2.43.0


From 33b50facad4108a1e99aa25b958acc8fc26a5c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:48 +0000
Subject: [PATCH 18/21] fix: count the padding after enums written as a number

---
 ssbh_write_derive/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ssbh_write_derive/src/lib.rs b/ssbh_write_derive/src/lib.rs
index 86c1aed..11039ae 100644
--- a/ssbh_write_derive/src/lib.rs
+++ b/ssbh_write_derive/src/lib.rs
@@ -81,14 +81,17 @@ pub fn ssbh_write_derive(input: TokenStream) -> TokenStream {
     // TODO: The repr doesn't really make sense for structs.
     // TODO: This only makes sense for primitive types?
     let (write_data, calculate_size) = match &write_options.repr {
-        Some(repr) => (
-            quote! {
-                (*self as #repr).ssbh_write(writer, data_ptr)?;
-            },
-            quote! {
-                (*self as #repr).size_in_bytes()
-            },
-        ),
+        Some(repr) => {
+            let padding = write_options.pad_after.unwrap_or(0) as u64;
+            (
+                quote! {
+                    (*self as #repr).ssbh_write(writer, data_ptr)?;
+                },
+                quote! {
+                    (*self as #repr).size_in_bytes() + #padding
+                },
+            )
+        }
         None => match &input.data {
             Data::Struct(DataStruct {
                 fields: Fields::Named(fields),
-- 
2.43.0


From 592e466793bdc26735e4f4026f9975bec75ee251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:37 +0000
Subject: [PATCH 19/21] fix: refuse skeletons whose parent indices do not fit
 16 bits

Saving a bone whose parent is an existing bone beyond index 32767 stored -1
and silently turned the bone into a root.
---
 ssbh_data/src/skel_data.rs | 41 ++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/ssbh_data/src/skel_data.rs b/ssbh_data/src/skel_data.rs
index 130ad2a..878d1da 100644
--- a/ssbh_data/src/skel_data.rs
+++ b/ssbh_data/src/skel_data.rs
@@ -170,21 +170,36 @@ impl TryFrom<&SkelData> for Skel {
                 .bones
                 .iter()
                 .enumerate()
-                .map(|(i, b)| SkelBoneEntry {
-                    name: b.name.clone().into(),
-                    index: i as u16,
-                    parent_index: match b.parent_index {
-                        // Indices that don't fit can't refer to an existing bone.
-                        Some(index) => index.try_into().unwrap_or(-1),
+                .map(|(i, b)| {
+                    let parent_index = match b.parent_index {
+                        Some(index) => match i16::try_from(index) {
+                            Ok(index) => index,
+                            // A reference to an existing bone should not be lost.
+                            Err(_) if index < data.bones.len() => {
+                                return Err(std::io::Error::new(
+                                    std::io::ErrorKind::InvalidInput,
+                                    format!("parent index {index} does not fit in 16 bits"),
+                                )
+                                .into())
+                            }
+                            // Indices that don't fit can't refer to an existing bone.
+                            Err(_) => -1,
+                        },
                         None => -1,
-                    },
-                    // TODO: Preserve or calculate flags?
-                    flags: SkelEntryFlags {
-                        unk1: 1,
-                        billboard_type: b.billboard_type,
-                    },
+                    };
+
+                    Ok(SkelBoneEntry {
+                        name: b.name.clone().into(),
+                        index: i as u16,
+                        parent_index,
+                        // TODO: Preserve or calculate flags?
+                        flags: SkelEntryFlags {
+                            unk1: 1,
+                            billboard_type: b.billboard_type,
+                        },
+                    })
                 })
-                .collect(),
+                .collect::<Result<_, error::Error>>()?,
             world_transforms: world_transforms
                 .iter()
                 .map(Matrix4x4::from_cols_array)
-- 
2.43.0


From 23345df0e29a042e763dbae133d8664969211ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:47 +0000
Subject: [PATCH 20/21] fix: saturate the stored influence count of skinned
 meshes

The maximum number of influences of a vertex was truncated to 8 bits,
so that 256 influences were stored as 0.
---
 ssbh_data/src/mesh_data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ssbh_data/src/mesh_data.rs b/ssbh_data/src/mesh_data.rs
index b749cce..2ad29c4 100644
--- a/ssbh_data/src/mesh_data.rs
+++ b/ssbh_data/src/mesh_data.rs
@@ -782,10 +782,13 @@ fn create_rigging_buffers<W: Weight>(
     for mesh_object in object_data {
         // TODO: unk1 is sometimes set to 0 for singlebound mesh objects, which isn't currently preserved.
         let flags = RiggingFlags {
+            // Saturate instead of wrapping around for more influences than the field can store.
             max_influences: calculate_max_influences(
                 &mesh_object.bone_influences,
                 mesh_object.vertex_indices.len(),
-            ) as u8,
+            )
+            .try_into()
+            .unwrap_or(u8::MAX),
             unk1: 1,
         };
 
-- 
2.43.0


From 1a37621bb4ac5aa84d608ff0d701e8ea0d335a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:21 +0000
Subject: [PATCH 21/21] fix: refuse JSON text with null bytes

A null byte ends the string in the file, so the rest of the text was lost.
---
 ssbh_lib/src/strings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ssbh_lib/src/strings.rs b/ssbh_lib/src/strings.rs
index 4e87a54..adb2a13 100644
--- a/ssbh_lib/src/strings.rs
+++ b/ssbh_lib/src/strings.rs
@@ -91,8 +91,12 @@ where
 {
     let string = String::deserialize(deserializer)?;
 
-    // TODO: This should check for null bytes?
-    Ok(string.as_bytes().to_vec())
+    // Null bytes would end the string early when reading it back.
+    if string.as_bytes().contains(&0u8) {
+        return Err(serde::de::Error::custom("unexpected null byte in string"));
+    }
+
+    Ok(string.into_bytes())
 }
 
 #[cfg(feature = "arbitrary")]
-- 
2.43.0

