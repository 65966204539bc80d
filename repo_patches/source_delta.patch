From 7420d11616f2bc411312aa3588832ca1ed31ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 01/13] fix: report the length of utf-16 data in bytes

---
 src/atom/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index c617a8e..f933dad 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -133,7 +133,7 @@ impl Data {
         (match self {
             Self::Reserved(v) => v.len(),
             Self::Utf8(s) => s.len(),
-            Self::Utf16(s) => s.encode_utf16().count(),
+            Self::Utf16(s) => 2 * s.encode_utf16().count(),
             Self::Jpeg(v) => v.len(),
             Self::Png(v) => v.len(),
             Self::BeSigned(v) => v.len(),
-- 
2.43.0


From 0095aa9c3c8afdc0e6ce63f876c2944cb6541783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:51 +0000
Subject: [PATCH 02/13] fix: only adjust chunk offsets that address moved data

---
 src/atom/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 5fb5b41..e915238 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -468,7 +468,10 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u32;
+                    let mut new_offset = *co;
+                    if *co as u64 >= moved_data_start {
+                        new_offset = (*co as i64 + len_diff) as u32;
+                    }
                     writer.write_all(&u32::to_be_bytes(new_offset))?;
                 }
                 writer.flush()?;
@@ -479,7 +482,10 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
 
                 writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
                 for co in chunk_offset.offsets.iter() {
-                    let new_offset = (*co as i64 + len_diff) as u64;
+                    let mut new_offset = *co;
+                    if *co >= moved_data_start {
+                        new_offset = co.wrapping_add(len_diff as u64);
+                    }
                     writer.write_all(&u64::to_be_bytes(new_offset))?;
                 }
                 writer.flush()?;
-- 
2.43.0


From 46ced5452cf5301f648375e66849871b0577388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 03/13] fix: compute adjusted chunk offsets before modifying
 the file

Offset tables located behind the item list were overwritten by their old
contents, and an invalid table was only noticed after others had already
been rewritten.
---
 src/atom/mod.rs | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index e915238..8cff259 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -446,16 +446,8 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     };
     len_diff += new_atom_len as i64;
 
-    // reading moved data
-    let old_file_len = reader.seek(SeekFrom::End(0))?;
-    let moved_data_len = old_file_len - moved_data_start;
-    let mut moved_data = Vec::with_capacity(moved_data_len as usize);
-    reader.seek(SeekFrom::Start(moved_data_start))?;
-    reader.read_to_end(&mut moved_data)?;
-
-    let mut writer = BufWriter::new(file);
-
-    // adjusting sample table chunk offsets
+    // computing adjusted sample table chunk offsets
+    let mut chunk_offset_tables = Vec::new();
     if mdat_pos > moov.pos() {
         let stbl_atoms = moov.trak.iter().filter_map(|a| {
             a.mdia.as_ref().and_then(|a| a.minf.as_ref()).and_then(|a| a.stbl.as_ref())
@@ -466,33 +458,53 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Stco::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::with_capacity(4 * chunk_offset.offsets.len());
                 for co in chunk_offset.offsets.iter() {
                     let mut new_offset = *co;
                     if *co as u64 >= moved_data_start {
                         new_offset = (*co as i64 + len_diff) as u32;
                     }
-                    writer.write_all(&u32::to_be_bytes(new_offset))?;
+                    table.extend_from_slice(&u32::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offset_tables.push((chunk_offset.table_pos, table));
             }
             if let Some(a) = &stbl.co64 {
                 reader.seek(SeekFrom::Start(a.content_pos()))?;
                 let chunk_offset = Co64::parse(reader, a.size())?;
 
-                writer.seek(SeekFrom::Start(chunk_offset.table_pos))?;
+                let mut table = Vec::with_capacity(8 * chunk_offset.offsets.len());
                 for co in chunk_offset.offsets.iter() {
                     let mut new_offset = *co;
                     if *co >= moved_data_start {
                         new_offset = co.wrapping_add(len_diff as u64);
                     }
-                    writer.write_all(&u64::to_be_bytes(new_offset))?;
+                    table.extend_from_slice(&u64::to_be_bytes(new_offset));
                 }
-                writer.flush()?;
+                chunk_offset_tables.push((chunk_offset.table_pos, table));
             }
         }
     }
 
+    // reading moved data
+    let old_file_len = reader.seek(SeekFrom::End(0))?;
+    let moved_data_len = old_file_len - moved_data_start;
+    let mut moved_data = Vec::with_capacity(moved_data_len as usize);
+    reader.seek(SeekFrom::Start(moved_data_start))?;
+    reader.read_to_end(&mut moved_data)?;
+
+    let mut writer = BufWriter::new(file);
+
+    // adjusting sample table chunk offsets, those inside the moved data are written along with it
+    for (table_pos, table) in chunk_offset_tables.iter() {
+        if *table_pos >= moved_data_start {
+            let start = (*table_pos - moved_data_start) as usize;
+            moved_data[start..start + table.len()].copy_from_slice(table);
+        } else {
+            writer.seek(SeekFrom::Start(*table_pos))?;
+            writer.write_all(table)?;
+        }
+    }
+
     // update existing ilst hierarchy atom lengths
     for a in update_atoms.iter().rev() {
         let new_len = a.len() as i64 + len_diff;
-- 
2.43.0


From 3972316aecbb268bd573f60a63fe24a745c8f2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 04/13] fix: reject chunk offsets that would no longer fit into
 32 bits

---
 src/atom/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 8cff259..2f81169 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -462,7 +462,12 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
                 for co in chunk_offset.offsets.iter() {
                     let mut new_offset = *co;
                     if *co as u64 >= moved_data_start {
-                        new_offset = (*co as i64 + len_diff) as u32;
+                        new_offset = u32::try_from(*co as i64 + len_diff).map_err(|_| {
+                            crate::Error::new(
+                                crate::ErrorKind::UnwritableData,
+                                "Adjusted chunk offset doesn't fit into 32 bits".to_owned(),
+                            )
+                        })?;
                     }
                     table.extend_from_slice(&u32::to_be_bytes(new_offset));
                 }
-- 
2.43.0


From 19282702677022ae1114b2bf45ca61e4d60bf4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:22 +0000
Subject: [PATCH 05/13] fix: reject inconsistently nested atoms before
 modifying the file

---
 src/atom/head.rs | 12 ++++++++++++
 src/atom/mdia.rs |  2 ++
 src/atom/meta.rs |  2 ++
 src/atom/minf.rs |  2 ++
 src/atom/mod.rs  |  9 ++++++++-
 src/atom/moov.rs |  2 ++
 src/atom/stbl.rs |  2 ++
 src/atom/trak.rs |  2 ++
 src/atom/udta.rs |  2 ++
 9 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index a0e2174..99f1546 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -217,6 +217,18 @@ pub fn find_bounds(reader: &mut impl Seek, size: Size) -> crate::Result<AtomBoun
     Ok(AtomBounds { pos, size })
 }
 
+/// Ensures that the content of an atom ends exactly where its head says it does.
+pub fn ensure_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
+    let current = reader.seek(SeekFrom::Current(0))?;
+    if current != bounds.end() {
+        return Err(crate::Error::new(
+            ErrorKind::Parsing,
+            "Length of atom doesn't match the length of its content".to_owned(),
+        ));
+    }
+    Ok(())
+}
+
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
     let current = reader.seek(SeekFrom::Current(0))?;
     let diff = bounds.end() - current;
diff --git a/src/atom/mdia.rs b/src/atom/mdia.rs
index a8da63b..9088686 100644
--- a/src/atom/mdia.rs
+++ b/src/atom/mdia.rs
@@ -57,6 +57,8 @@ impl FindAtom for Mdia {
             parsed_bytes += head.len();
         }
 
+        ensure_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, minf })
     }
 }
diff --git a/src/atom/meta.rs b/src/atom/meta.rs
index 75f0d75..f58acfc 100644
--- a/src/atom/meta.rs
+++ b/src/atom/meta.rs
@@ -120,6 +120,8 @@ impl FindAtom for Meta<'_> {
             parsed_bytes += head.len();
         }
 
+        ensure_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, hdlr, ilst })
     }
 }
diff --git a/src/atom/minf.rs b/src/atom/minf.rs
index 125d8c6..60e395a 100644
--- a/src/atom/minf.rs
+++ b/src/atom/minf.rs
@@ -57,6 +57,8 @@ impl FindAtom for Minf {
             parsed_bytes += head.len();
         }
 
+        ensure_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, stbl })
     }
 }
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 2f81169..88bdb71 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -385,6 +385,14 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
             "Missing necessary data, no movie (moov) atom found".to_owned(),
         )
     })?;
+    let old_file_len = reader.seek(SeekFrom::End(0))?;
+    if moov.end() > old_file_len {
+        return Err(crate::Error::new(
+            crate::ErrorKind::Parsing,
+            "The movie (moov) atom reaches beyond the end of the file".to_owned(),
+        ));
+    }
+
     let udta = &moov.udta;
     let meta = udta.as_ref().and_then(|a| a.meta.as_ref());
     let hdlr = meta.as_ref().and_then(|a| a.hdlr.as_ref());
@@ -491,7 +499,6 @@ pub(crate) fn write_tag_to(file: &File, atoms: &[AtomData]) -> crate::Result<()>
     }
 
     // reading moved data
-    let old_file_len = reader.seek(SeekFrom::End(0))?;
     let moved_data_len = old_file_len - moved_data_start;
     let mut moved_data = Vec::with_capacity(moved_data_len as usize);
     reader.seek(SeekFrom::Start(moved_data_start))?;
diff --git a/src/atom/moov.rs b/src/atom/moov.rs
index 7ce7835..ed11e56 100644
--- a/src/atom/moov.rs
+++ b/src/atom/moov.rs
@@ -86,6 +86,8 @@ impl FindAtom for Moov<'_> {
             parsed_bytes += head.len();
         }
 
+        ensure_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, trak, udta })
     }
 }
diff --git a/src/atom/stbl.rs b/src/atom/stbl.rs
index 5f99642..d93462e 100644
--- a/src/atom/stbl.rs
+++ b/src/atom/stbl.rs
@@ -62,6 +62,8 @@ impl FindAtom for Stbl {
             parsed_bytes += head.len();
         }
 
+        ensure_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, stco, co64 })
     }
 }
diff --git a/src/atom/trak.rs b/src/atom/trak.rs
index 8caabd5..0262ae0 100644
--- a/src/atom/trak.rs
+++ b/src/atom/trak.rs
@@ -57,6 +57,8 @@ impl FindAtom for Trak {
             parsed_bytes += head.len();
         }
 
+        ensure_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, mdia })
     }
 }
diff --git a/src/atom/udta.rs b/src/atom/udta.rs
index 051ca7d..e23e4c0 100644
--- a/src/atom/udta.rs
+++ b/src/atom/udta.rs
@@ -79,6 +79,8 @@ impl FindAtom for Udta<'_> {
             parsed_bytes += head.len();
         }
 
+        ensure_end(reader, &bounds)?;
+
         Ok(Self::Bounds { bounds, meta })
     }
 }
-- 
2.43.0


From 0abd8495aa408dd612d17fec11856e60d3f2f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:23 +0000
Subject: [PATCH 06/13] fix: don't panic on invalid atom and descriptor lengths

---
 src/atom/head.rs |  8 +++++---
 src/atom/mod.rs  | 17 ++++++++++++++---
 src/atom/mp4a.rs |  4 ++--
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/atom/head.rs b/src/atom/head.rs
index 99f1546..b1065db 100644
--- a/src/atom/head.rs
+++ b/src/atom/head.rs
@@ -118,6 +118,10 @@ pub fn parse_head(reader: &mut impl Read) -> crate::Result<Head> {
 
     if len == 1 {
         match reader.read_u64() {
+            Ok(l) if l < 16 || l > i64::MAX as u64 => Err(crate::Error::new(
+                crate::ErrorKind::Parsing,
+                format!("Read invalid extended length of '{}': {}", ident, l),
+            )),
             Ok(l) => Ok(Head::new(true, l, ident)),
             Err(e) => Err(crate::Error::new(
                 ErrorKind::Io(e),
@@ -230,8 +234,6 @@ pub fn ensure_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<
 }
 
 pub fn seek_to_end(reader: &mut impl Seek, bounds: &AtomBounds) -> crate::Result<()> {
-    let current = reader.seek(SeekFrom::Current(0))?;
-    let diff = bounds.end() - current;
-    reader.seek(SeekFrom::Current(diff as i64))?;
+    reader.seek(SeekFrom::Start(bounds.end()))?;
     Ok(())
 }
diff --git a/src/atom/mod.rs b/src/atom/mod.rs
index 88bdb71..0d4ba11 100644
--- a/src/atom/mod.rs
+++ b/src/atom/mod.rs
@@ -210,7 +210,8 @@ impl AtomData {
                     // Skipping 4 byte locale indicator
                     reader.seek(SeekFrom::Current(4))?;
 
-                    data.push(Data::parse(reader, datatype, head.content_len() - 8)?);
+                    let data_len = sub_len(head.content_len(), 8)?;
+                    data.push(Data::parse(reader, datatype, data_len)?);
                 }
                 MEAN => {
                     let (version, _) = parse_full_head(reader)?;
@@ -221,7 +222,7 @@ impl AtomData {
                         ));
                     }
 
-                    mean = Some(reader.read_utf8(head.content_len() - 4)?);
+                    mean = Some(reader.read_utf8(sub_len(head.content_len(), 4)?)?);
                 }
                 NAME => {
                     let (version, _) = parse_full_head(reader)?;
@@ -232,7 +233,7 @@ impl AtomData {
                         ));
                     }
 
-                    name = Some(reader.read_utf8(head.content_len() - 4)?);
+                    name = Some(reader.read_utf8(sub_len(head.content_len(), 4)?)?);
                 }
                 _ => {
                     reader.seek(SeekFrom::Current(head.content_len() as i64))?;
@@ -295,6 +296,16 @@ impl AtomData {
     }
 }
 
+/// Subtracts the length of fixed size fields from the content length of an atom.
+fn sub_len(len: u64, fields: u64) -> crate::Result<u64> {
+    len.checked_sub(fields).ok_or_else(|| {
+        crate::Error::new(
+            crate::ErrorKind::Parsing,
+            format!("Read content length which is less than {} bytes: {}", fields, len),
+        )
+    })
+}
+
 /// Attempts to read MPEG-4 audio metadata from the reader.
 pub(crate) fn read_tag_from(reader: &mut (impl Read + Seek)) -> crate::Result<Tag> {
     let Ftyp(ftyp) = Ftyp::parse(reader)?;
diff --git a/src/atom/mp4a.rs b/src/atom/mp4a.rs
index 530482f..01511bd 100644
--- a/src/atom/mp4a.rs
+++ b/src/atom/mp4a.rs
@@ -127,7 +127,7 @@ fn parse_esds(reader: &mut (impl Read + Seek), info: &mut Mp4a, size: Size) -> c
         ));
     }
 
-    let max_len = size.content_len() - 4 - head_len;
+    let max_len = size.content_len().saturating_sub(4 + head_len);
     parse_es_desc(reader, info, min(desc_len, max_len))?;
 
     Ok(())
@@ -221,7 +221,7 @@ fn parse_ds_desc(reader: &mut (impl Read + Seek), info: &mut Mp4a, len: u64) ->
     let channel_config = ((num >> 3) & 0x0F) as u8;
     info.channel_config = ChannelConfig::try_from(channel_config).ok();
 
-    reader.seek(SeekFrom::Current((len - 2) as i64))?;
+    reader.seek(SeekFrom::Current(len as i64 - 2))?;
     Ok(())
 }
 
-- 
2.43.0


From 692038f09542749a25e9ea984d6c5fd2954de03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 07/13] fix: don't panic on movie headers with large durations
 or a timescale of 0

---
 src/atom/mvhd.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/atom/mvhd.rs b/src/atom/mvhd.rs
index d2a9c4b..fd1d1c2 100644
--- a/src/atom/mvhd.rs
+++ b/src/atom/mvhd.rs
@@ -33,7 +33,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u32()? as u64;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(duration, timescale);
             }
             1 => {
                 // # Version 1
@@ -48,7 +48,7 @@ impl ParseAtom for Mvhd {
                 let timescale = reader.read_u32()? as u64;
                 let duration = reader.read_u64()?;
 
-                mvhd.duration = Duration::from_nanos(duration * 1_000_000_000 / timescale);
+                mvhd.duration = scaled_duration(duration, timescale);
             }
             v => {
                 return Err(crate::Error::new(
@@ -63,3 +63,14 @@ impl ParseAtom for Mvhd {
         Ok(mvhd)
     }
 }
+
+/// Converts a duration in units of `1 / timescale` seconds. A timescale of 0 is invalid and results
+/// in a duration of 0.
+fn scaled_duration(duration: u64, timescale: u64) -> Duration {
+    if timescale == 0 {
+        return Duration::default();
+    }
+
+    let nanos = (duration % timescale) * 1_000_000_000 / timescale;
+    Duration::new(duration / timescale, nanos as u32)
+}
-- 
2.43.0


From ef6573c181bb7ca1011deab3dacdc7d8eca55efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 08/13] fix: don't allocate memory for data beyond the end of
 the file

---
 src/atom/data.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/atom/data.rs b/src/atom/data.rs
index f933dad..746342e 100644
--- a/src/atom/data.rs
+++ b/src/atom/data.rs
@@ -464,24 +464,35 @@ pub trait ReadData: Read {
     }
 
     /// Attempts to read 8 bit unsigned integers from the reader to a vector of size length.
-    fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>> {
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+    fn read_u8_vec(&mut self, len: u64) -> io::Result<Vec<u8>>
+    where
+        Self: Sized,
+    {
+        // The length isn't trustworthy, so only allocate memory for data that can be read.
+        let mut buf = Vec::new();
+        Read::take(&mut *self, len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
         Ok(buf)
     }
 
     /// Attempts to read a utf-8 string from the reader.
-    fn read_utf8(&mut self, len: u64) -> crate::Result<String> {
+    fn read_utf8(&mut self, len: u64) -> crate::Result<String>
+    where
+        Self: Sized,
+    {
         let data = self.read_u8_vec(len)?;
 
         Ok(String::from_utf8(data)?)
     }
 
     /// Attempts to read a utf-16 string from the reader.
-    fn read_utf16(&mut self, len: u64) -> crate::Result<String> {
-        let mut buf = vec![0u8; len as usize];
-
-        self.read_exact(&mut buf)?;
+    fn read_utf16(&mut self, len: u64) -> crate::Result<String>
+    where
+        Self: Sized,
+    {
+        let buf = self.read_u8_vec(len)?;
 
         let data: Vec<u16> =
             buf.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect();
-- 
2.43.0


From bff77f26a03b10ab67c1fabcfb2c5a3337ae1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:25 +0000
Subject: [PATCH 09/13] fix: don't create items without data

Setting or adding an empty list of values left an item without data in the
tag, which is written but then can't be read.
---
 src/tag/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tag/mod.rs b/src/tag/mod.rs
index eed2963..f1288e8 100644
--- a/src/tag/mod.rs
+++ b/src/tag/mod.rs
@@ -1269,13 +1269,19 @@ impl Tag {
         ident: (impl Ident + Into<DataIdent>),
         data: impl IntoIterator<Item = Data>,
     ) {
+        let data: Vec<Data> = data.into_iter().collect();
+        if data.is_empty() {
+            self.remove_data_of(&ident);
+            return;
+        }
+
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
             Some(a) => {
                 a.data.clear();
                 a.data.extend(data);
             }
             None => {
-                self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect()));
+                self.atoms.push(AtomData::new(ident.into(), data));
             }
         }
     }
@@ -1331,9 +1337,14 @@ impl Tag {
         ident: (impl Ident + Into<DataIdent>),
         data: impl IntoIterator<Item = Data>,
     ) {
+        let data: Vec<Data> = data.into_iter().collect();
+        if data.is_empty() {
+            return;
+        }
+
         match self.atoms.iter_mut().find(|a| ident == a.ident) {
             Some(a) => a.data.extend(data),
-            None => self.atoms.push(AtomData::new(ident.into(), data.into_iter().collect())),
+            None => self.atoms.push(AtomData::new(ident.into(), data)),
         }
     }
 
-- 
2.43.0


From 34477860c71398ee5da13ddb22d15ee1d39d16b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 10/13] fix: remove the track or disc tuple once both numbers
 are removed

---
 src/tag/tuple.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 1a85f21..7179619 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -73,7 +73,7 @@ impl Tag {
     pub fn remove_track_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -82,7 +82,7 @@ impl Tag {
     pub fn remove_total_tracks(&mut self) {
         let vec = self.bytes_mut_of(&atom::TRACK_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_track(),
         }
     }
@@ -169,7 +169,7 @@ impl Tag {
     pub fn remove_disc_number(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if total(v) != Some(0) => set_number(v, 0),
+            Some(v) if total(v).is_some() => set_number(v, 0),
             _ => self.remove_disc(),
         }
     }
@@ -178,7 +178,7 @@ impl Tag {
     pub fn remove_total_discs(&mut self) {
         let vec = self.bytes_mut_of(&atom::DISC_NUMBER).next();
         match vec {
-            Some(v) if number(v) != Some(0) => set_total(v, 0),
+            Some(v) if number(v).is_some() => set_total(v, 0),
             _ => self.remove_disc(),
         }
     }
-- 
2.43.0


From 2d86ef1947b8f6d880b59416a2e99560b870d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 11/13] fix: return the first genre and remove custom genres as
 documented

With an unknown standard genre first, genre() skipped the following ones,
and take_genre() left custom genres in place when there was a standard one.
---
 src/tag/genre.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index baaa91d..4b4877d 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -148,11 +148,7 @@ impl Tag {
 
     /// Returns the first genre (`gnre` or `©gen`).
     pub fn genre(&self) -> Option<&str> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g);
-        }
-
-        self.custom_genre()
+        self.genres().next()
     }
 
     /// Removes all custom genres (`©gen`) and returns all genres, first standard genres (`gnre`)
@@ -168,11 +164,7 @@ impl Tag {
 
     /// Removes all custom genres (`©gen`) and returns the first genre (`gnre` or `©gen`).
     pub fn take_genre(&mut self) -> Option<String> {
-        if let Some(g) = self.standard_genre().and_then(stanard_genre) {
-            return Some(g.to_owned());
-        }
-
-        self.take_custom_genre()
+        self.take_genres().next()
     }
 
     /// Sets the custom genre (`©gen`). This will remove all other standard or custom genres.
-- 
2.43.0


From 58a391772aad42290140e6b8110539263fbfad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 12/13] fix: don't complete the total number of a tuple which
 ends in the middle of it

---
 src/tag/tuple.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tag/tuple.rs b/src/tag/tuple.rs
index 7179619..def37d4 100644
--- a/src/tag/tuple.rs
+++ b/src/tag/tuple.rs
@@ -207,6 +207,10 @@ fn set_number(vec: &mut Vec<u8>, number: u16) {
 }
 
 fn set_total(vec: &mut Vec<u8>, total: u16) {
+    // Don't complete the number if the data ends in the middle of it.
+    if vec.len() < 4 {
+        vec.truncate(2);
+    }
     set_be_int!(vec, 4, total, u16);
 }
 
-- 
2.43.0


From e2f3547b5712df041376e24d7fe29c97b01d56af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 13/13] fix: correct misspelled standard genres

---
 src/tag/genre.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tag/genre.rs b/src/tag/genre.rs
index 4b4877d..b022218 100644
--- a/src/tag/genre.rs
+++ b/src/tag/genre.rs
@@ -12,7 +12,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Disco",
     "Funk",
     "Grunge",
-    "Hip,-Hop",
+    "Hip-Hop",
     "Jazz",
     "Metal",
     "New Age",
@@ -65,7 +65,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Comedy",
     "Cult",
     "Gangsta",
-    "Top 41",
+    "Top 40",
     "Christian Rap",
     "Pop/Funk",
     "Jungle",
@@ -76,7 +76,7 @@ pub const STANDARD_GENRES: [&str; 80] = [
     "Rave",
     "Show tunes",
     "Trailer",
-    "Lo,-Fi",
+    "Lo-Fi",
     "Tribal",
     "Acid Punk",
     "Acid Jazz",
-- 
2.43.0

