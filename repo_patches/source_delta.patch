From 1436d1c765e0e666c3d1d27eb273f5c6f88b0f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 01/25] fix: advance the XOR key by the bytes actually
 transferred

---
 src/xor.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/xor.rs b/src/xor.rs
index aff09f5..2607357 100644
--- a/src/xor.rs
+++ b/src/xor.rs
@@ -39,7 +39,8 @@ impl<R: Read> Read for XorStream<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
         let bytes_read = self.stream.read(buf)?;
 
-        for byte in buf {
+        // Only the bytes that were actually read consume key bytes.
+        for byte in &mut buf[..bytes_read] {
             let key_byte = self.key.next().unwrap_or(0);
             *byte ^= key_byte;
         }
@@ -52,13 +53,18 @@ impl<W: Write> Write for XorStream<W> {
     fn write(&mut self, buf: &[u8]) -> Result<usize> {
         let encrypted_buffer: Vec<u8> = buf
             .iter()
-            .map(|x| {
-                let key_byte = self.key.next().unwrap_or(0);
-                x ^ key_byte
-            })
+            .zip(self.key.clone())
+            .map(|(x, key_byte)| x ^ key_byte)
             .collect();
 
-        self.stream.write(&encrypted_buffer)
+        let bytes_written = self.stream.write(&encrypted_buffer)?;
+
+        // Only the bytes that were actually written consume key bytes.
+        for _ in 0..bytes_written {
+            self.key.next();
+        }
+
+        Ok(bytes_written)
     }
 
     fn flush(&mut self) -> Result<()> {
-- 
2.43.0


From 11f1b48e015901287caabc141703c4186b74f7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 02/25] fix: flush the underlying stream when flushing a
 database

---
 src/pdb/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index d87d81b..3fc2712 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -214,6 +214,8 @@ impl<RW: Read + Write + Seek> Database<RW> {
         let endian = Endian::Little;
         self.io.seek(SeekFrom::Start(0))?;
         self.content.write_options(&mut self.io, endian, ())?;
+        // The stream may only have buffered the data so far.
+        self.io.flush()?;
         Ok(())
     }
 
-- 
2.43.0


From 391bfc7e264df5fdfe9024b02a48eb500450021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 03/25] fix: keep the rest of the header page when flushing a
 database

---
 src/pdb/io.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 3fc2712..c22eeba 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -32,11 +32,12 @@ use std::io::{Read, Seek, Write};
 struct LazyDatabase {
     /// The PDB header.
     #[br(args(db_type))]
-    #[bw(pad_size_to = header.page_size as usize)]
     header: Header,
     /// The pages of the database, initially not loaded.
     #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
-    #[bw(args(header.page_size))]
+    // Seek to the first page instead of padding the header with `bw(pad_size_to = ...)`, because the
+    // latter would write zeros over the rest of the header page.
+    #[bw(seek_before = SeekFrom::Start(header.page_size.into()), args(header.page_size))]
     pages: Vec<LazyPage>,
 }
 
-- 
2.43.0


From e6a93561276c820503e2df3eae22f3ec46a9c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:59 +0000
Subject: [PATCH 04/25] fix: stop mapping an array at the first error

---
 src/util.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2cf4f5c..2db0d8a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -216,16 +216,19 @@ pub(crate) trait ArrayPolyfills<T, const N: usize> {
 }
 
 impl<T, const N: usize> ArrayPolyfills<T, N> for [T; N] {
-    fn try_map_polyfill<U, E>(self, f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
-        let results = self.map(f);
-        let has_error = results.iter().any(|r| r.is_err());
-        if has_error {
-            return Err(results.into_iter().find_map(|r| r.err()).unwrap());
+    fn try_map_polyfill<U, E>(self, mut f: impl FnMut(T) -> Result<U, E>) -> Result<[U; N], E> {
+        // Like `array::try_map()`, do not call `f` again after the first error.
+        let mut error = None;
+        let results = self.map(|item| {
+            if error.is_some() {
+                return None;
+            }
+            f(item).map_err(|err| error = Some(err)).ok()
+        });
+        match error {
+            Some(err) => Err(err),
+            None => Ok(results.map(|r| r.expect("all items were mapped"))),
         }
-        Ok(results.map(|r| match r {
-            Ok(v) => v,
-            Err(_) => unreachable!(),
-        }))
     }
 
     fn zip_polyfill<U>(self, other: [U; N]) -> [(T, U); N] {
-- 
2.43.0


From 6c47da35770ac4049754c8624f0edc02827581e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 05/25] fix: do not mistake UCS-2 strings starting with a 0x03
 byte for an ISRC

---
 src/pdb/string.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 321f3f7..6733318 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -254,8 +254,15 @@ enum LongBody {
 
     // ISRC strings are a bug/flaw in pioneers implementation, this is technically
     // a semi-dirty workaround
+    //
+    // A UCS2LE string may also start with a 0x3 byte, so only accept 12 printable
+    // ASCII characters (see `DeviceSQLString::new_isrc`) that fill the whole string.
     #[br(pre_assert(flags == 0x90))]
-    Isrc(#[brw(magic = 0x3u8)] binrw::NullString),
+    Isrc(
+        #[brw(magic = 0x3u8)]
+        #[br(assert(len == 14 && self_0.len() == 12 && self_0.iter().all(u8::is_ascii_graphic)))]
+        binrw::NullString,
+    ),
     #[br(pre_assert(flags == 0x40))]
     Ascii(#[br(count = usize::from(len))] Vec<u8>),
     #[br(pre_assert(flags == 0x90))]
-- 
2.43.0


From 53e1ca9ea4c72bc4424fe4c7af6b5e1b26d85407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 06/25] fix: report I/O errors while reading a database instead
 of catch-all values

---
 src/pdb/io.rs | 61 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 58 insertions(+), 3 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index c22eeba..54de3eb 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -76,10 +76,61 @@ fn read_page<IO: Read + Seek>(
     let endian = Endian::Little;
     let page_offset = SeekFrom::Start(page_index.offset(page_size));
     io.seek(page_offset).map_err(binrw::Error::Io)?;
-    let page = Page::read_options(io, endian, (page_size, db_type))?;
+    let page = read_or_io_error(io, |io| {
+        Page::read_options(io, endian, (page_size, db_type))
+    })?;
     Ok(page)
 }
 
+/// Stream wrapper that keeps failing after the first I/O error.
+struct FailedStream<'io, IO> {
+    io: &'io mut IO,
+    error: Option<std::io::Error>,
+}
+
+impl<IO> FailedStream<'_, IO> {
+    fn run<T>(&mut self, op: impl FnOnce(&mut IO) -> std::io::Result<T>) -> std::io::Result<T> {
+        if let Some(error) = &self.error {
+            return Err(error.kind().into());
+        }
+        op(self.io).map_err(|error| {
+            let kind = error.kind();
+            if kind != std::io::ErrorKind::Interrupted {
+                self.error = Some(error);
+            }
+            kind.into()
+        })
+    }
+}
+
+impl<IO: Read> Read for FailedStream<'_, IO> {
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        self.run(|io| io.read(buf))
+    }
+}
+
+impl<IO: Seek> Seek for FailedStream<'_, IO> {
+    fn seek(&mut self, pos: SeekFrom) -> std::io::Result<u64> {
+        self.run(|io| io.seek(pos))
+    }
+}
+
+/// Parses a value, but fails if there was any I/O error.
+///
+/// While parsing an enum, all variants are tried until one succeeds. If reading a variant fails due
+/// to an I/O error, a later catch-all variant must not turn that error into data.
+fn read_or_io_error<IO: Read + Seek, T>(
+    io: &mut IO,
+    parse: impl FnOnce(&mut FailedStream<'_, IO>) -> BinResult<T>,
+) -> BinResult<T> {
+    let mut stream = FailedStream { io, error: None };
+    let result = parse(&mut stream);
+    match stream.error {
+        Some(error) => Err(binrw::Error::Io(error)),
+        None => result,
+    }
+}
+
 /// A PDB database opened for reading or writing.
 #[derive(Debug)]
 pub struct Database<IO> {
@@ -93,7 +144,9 @@ impl<R: Read + Seek> Database<R> {
     /// Still allows modifying data in memory.
     pub fn open_non_persistent(mut io: R, db_type: DatabaseType) -> RekordcrateResult<Self> {
         let endian = Endian::Little;
-        let content = LazyDatabase::read_options(&mut io, endian, (db_type,))?;
+        let content = read_or_io_error(&mut io, |io| {
+            LazyDatabase::read_options(io, endian, (db_type,))
+        })?;
         Ok(Self {
             io,
             db_type,
@@ -202,7 +255,9 @@ impl<RW: Read + Write + Seek> Database<RW> {
     /// Opens a PDB database for reading and writing.
     pub fn open(mut io: RW, db_type: DatabaseType) -> RekordcrateResult<Self> {
         let endian = Endian::Little;
-        let content = LazyDatabase::read_options(&mut io, endian, (db_type,))?;
+        let content = read_or_io_error(&mut io, |io| {
+            LazyDatabase::read_options(io, endian, (db_type,))
+        })?;
         Ok(Self {
             io,
             db_type,
-- 
2.43.0


From c2fc7689c55ef56bbb4ee39b589d91960bb81191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:51 +0000
Subject: [PATCH 07/25] fix: do not turn an I/O error into an unknown analysis
 section

---
 src/anlz.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/anlz.rs b/src/anlz.rs
index 2b25ba2..81c6eac 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -116,6 +116,8 @@ pub enum ContentKind {
 #[brw(big)]
 pub struct Header {
     /// Kind of content in this item.
+    // Read the bytes first, so that an I/O error is not mistaken for an unknown kind.
+    #[br(try_map = |raw: [u8; 4]| ContentKind::read(&mut binrw::io::Cursor::new(raw)))]
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
     pub size: u32,
-- 
2.43.0


From b3c29af257aa525d5d291099194c620cc6d6ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:26 +0000
Subject: [PATCH 08/25] fix: reject analysis sections with inconsistent sizes
 instead of overflowing

---
 src/anlz.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 81c6eac..39151b7 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -120,8 +120,10 @@ pub struct Header {
     #[br(try_map = |raw: [u8; 4]| ContentKind::read(&mut binrw::io::Cursor::new(raw)))]
     pub kind: ContentKind,
     /// Length of the header data (including `kind`, `size` and `total_size`).
+    #[br(assert(size >= 12))]
     pub size: u32,
     /// Length of the section (including the header).
+    #[br(assert(total_size >= size))]
     pub total_size: u32,
 }
 
@@ -900,7 +902,7 @@ pub struct WaveformDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries)== header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -928,7 +930,7 @@ pub struct WaveformColorPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -952,7 +954,7 @@ pub struct WaveformColorDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field.
     unknown: u32,
@@ -979,7 +981,7 @@ pub struct Waveform3BandPreview {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Waveform preview column data.
     #[br(count = len_entries)]
@@ -1001,7 +1003,7 @@ pub struct Waveform3BandDetail {
     /// Number of entries in this section.
     #[br(temp)]
     #[bw(calc = data.len() as u32)]
-    #[br(assert((len_entry_bytes * len_entries) == header.content_size()))]
+    #[br(assert(len_entry_bytes.checked_mul(len_entries) == Some(header.content_size())))]
     len_entries: u32,
     /// Unknown field (apparently always `0x00960000`)
     #[br(assert(unknown == 0x00960000))]
@@ -1079,7 +1081,7 @@ impl SongStructureData {
     /// Returns an iterator over the key bytes (RB6+).
     fn get_key(len_entries: u16) -> impl Iterator<Item = u8> {
         Self::KEY_DATA.into_iter().map(move |x: u8| -> u8 {
-            let value = u16::from(x) + len_entries;
+            let value = u16::from(x).wrapping_add(len_entries);
             (value % 256) as u8
         })
     }
-- 
2.43.0


From f5ea02e1ff871b7dc2b4eabb8fe88dffbc14c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 09/25] fix: do not reserve memory for analysis data that is
 not in the file

---
 src/anlz.rs | 19 ++++++++++---------
 src/util.rs | 17 +++++++++++++++++
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 39151b7..05e1835 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -26,7 +26,10 @@
 
 #![allow(clippy::must_use_candidate)]
 
-use crate::{util::ColorIndex, xor::XorStream};
+use crate::{
+    util::{read_bytes, ColorIndex},
+    xor::XorStream,
+};
 use binrw::{
     binrw,
     io::{Read, Seek, Write},
@@ -296,12 +299,10 @@ impl BinRead for LenPrefixedWideString {
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
         let len: u32 = u32::read_options(reader, endian, ())?;
-        let len = len as usize;
         if len == 0 {
             return Ok(Self(String::new()));
         }
-        let mut bytes = vec![0u8; len];
-        reader.read_exact(&mut bytes)?;
+        let bytes = read_bytes(reader, endian, (len,))?;
         let code_units: Vec<u16> = bytes
             .chunks_exact(2)
             .map(|c| u16::from_be_bytes([c[0], c[1]]))
@@ -470,7 +471,7 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(count = header.total_size.saturating_sub(68 + comment.byte_len()) as usize)]
+    #[br(parse_with = read_bytes, args(header.total_size.saturating_sub(68).saturating_sub(comment.byte_len())))]
     pub trailing: Vec<u8>,
 }
 
@@ -849,7 +850,7 @@ pub struct VBR {
     /// Unknown field.
     unknown1: u32,
     /// Unknown data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     unknown2: Vec<u8>,
 }
 
@@ -1139,10 +1140,10 @@ impl SongStructureData {
 #[br(import(header: Header))]
 pub struct Unknown {
     /// Unknown header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     header_data: Vec<u8>,
     /// Unknown content data.
-    #[br(count = header.content_size())]
+    #[br(parse_with = read_bytes, args(header.content_size()))]
     content_data: Vec<u8>,
 }
 
@@ -1169,7 +1170,7 @@ pub struct ANLZ {
     #[br(assert(header.kind == ContentKind::File))]
     pub header: Header,
     /// The header data.
-    #[br(count = header.remaining_size())]
+    #[br(parse_with = read_bytes, args(header.remaining_size()))]
     pub header_data: Vec<u8>,
     /// The content sections.
     #[br(parse_with = Self::parse_sections, args(header.content_size()))]
diff --git a/src/util.rs b/src/util.rs
index 2db0d8a..87443a6 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -142,6 +142,23 @@ pub enum FileType {
     Other(u16),
 }
 
+/// Reads `count` bytes without reserving memory for bytes that the stream does not contain.
+pub(crate) fn read_bytes<Reader>(
+    reader: &mut Reader,
+    _endian: Endian,
+    (count,): (u32,),
+) -> BinResult<Vec<u8>>
+where
+    Reader: Read + Seek,
+{
+    let mut bytes = Vec::new();
+    let bytes_read = reader.take(count.into()).read_to_end(&mut bytes)?;
+    if bytes_read as u64 != u64::from(count) {
+        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(bytes)
+}
+
 /// Parses a sequence of values with `BinRead` from the offsets provided by the iterator.
 pub(crate) fn parse_at_offsets<Offset, Value, T, Args, It, Reader>(
     it: It,
-- 
2.43.0


From cfe7c66dcd497f765b675bd924719b777e9b71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 10/25] fix: report corrupt DeviceSQL strings instead of
 panicking

---
 src/pdb/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pdb/string.rs b/src/pdb/string.rs
index 6733318..4dc3a9d 100644
--- a/src/pdb/string.rs
+++ b/src/pdb/string.rs
@@ -151,9 +151,8 @@ impl fmt::Display for DeviceSQLString {
                 content: LongBody::Ascii(content),
                 ..
             } => {
-                f.write_str(std::str::from_utf8(content).expect(
-                    "internal invariant violated: ASCII/UTF-8 content expected to be valid",
-                ))
+                // Like for UCS-2 strings below, invalid data read from a file must not panic here.
+                f.write_str(&String::from_utf8_lossy(content))
             }
             DeviceSQLStringImpl::Long {
                 content: LongBody::Isrc(null_str),
@@ -221,7 +220,7 @@ enum DeviceSQLStringImpl {
         // first byte (`header` here, `flags` in Long). If its set, the
         // string being parsed is a of the ShortASCII kind, if its not, its
         // the Long form.
-        #[br(temp, assert(header & 0b1 == 1))]
+        #[br(temp, assert(header & 0b1 == 1 && header > 1))]
         #[bw(calc = (((content.len() + 1) << 1) | 1) as u8)]
         header: u8,
 
@@ -236,6 +235,7 @@ enum DeviceSQLStringImpl {
         flags: u8,
 
         #[br(temp)]
+        #[br(assert(length >= 4))]
         #[bw(calc = content.byte_count().unwrap() + 4)]
         length: u16,
 
-- 
2.43.0


From 24debd976772005d70558366143a72a4dd4566b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:18 +0000
Subject: [PATCH 11/25] fix: report mismatched page types and invalid page
 indices instead of panicking

---
 src/pdb/io.rs  | 16 +++++++++-------
 src/pdb/mod.rs | 12 +++++++-----
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index 54de3eb..ca7876f 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -156,10 +156,9 @@ impl<R: Read + Seek> Database<R> {
 
     /// Loads a page into memory.
     pub fn load_page(&mut self, index: PageIndex) -> RekordcrateResult<&mut Page> {
-        let page_entry = self
-            .content
-            .pages
-            .get_mut(index.0 as usize - 1)
+        let page_entry = (index.0 as usize)
+            .checked_sub(1)
+            .and_then(|i| self.content.pages.get_mut(i))
             .ok_or_else(|| RekordcrateError::PageNotPresent(index))?;
         if let LazyPage::NotLoaded = page_entry {
             let page = read_page(
@@ -233,9 +232,12 @@ impl<R: Read + Seek> Database<R> {
                     .into_fallible()
                     .map_err(|_: core::convert::Infallible| unreachable!()))
             })
-            // The parsed row type is determined from the page type, so if we find an unexpected
-            // variant then there is a code bug (not simply a corrupt DB).
-            .map(|row| Ok(row.as_variant_mut().expect("unexpected row type"))))
+            // The parsed row type is determined from the type in the page header, which may differ
+            // from the type of the table in a corrupt DB.
+            .map(|row| {
+                row.as_variant_mut()
+                    .ok_or(RekordcrateError::IntegrityError("unexpected row type"))
+            }))
     }
 
     /// Returns a reference to the PDB header.
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index f2786b7..15189a5 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -304,11 +304,13 @@ impl fmt::Debug for IndexEntry {
                 .field("is_empty", &self.is_empty())
                 .finish()
         } else {
-            f.debug_struct("IndexEntry")
-                .field("is_empty", &self.is_empty())
-                .field("page_index", &self.page_index().unwrap())
-                .field("index_flags", &self.index_flags())
-                .finish()
+            let mut debug = f.debug_struct("IndexEntry");
+            debug.field("is_empty", &self.is_empty());
+            match self.page_index() {
+                Ok(page_index) => debug.field("page_index", &page_index),
+                Err(err) => debug.field("page_index", &err),
+            };
+            debug.field("index_flags", &self.index_flags()).finish()
         }
     }
 }
-- 
2.43.0


From ef82a6ecabc5cce0d678e49363463fa2f2e01d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:52 +0000
Subject: [PATCH 12/25] fix: reject page sizes and index pages that do not fit
 their own headers

---
 src/pdb/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 15189a5..7ab5c46 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -208,6 +208,7 @@ pub struct Header {
     /// Size of a single page in bytes.
     ///
     /// The byte offset of a page can be calculated by multiplying a page index with this value.
+    #[br(assert(page_size >= Page::MIN_SIZE))]
     pub page_size: u32,
     /// Number of tables.
     pub num_tables: u32,
@@ -437,7 +438,11 @@ pub enum PageContent {
     ),
     /// The page is an index page.
     #[br(pre_assert(header.page_flags.is_index_page()))]
-    Index(#[bw(args { page_size })] IndexPageContent),
+    Index(
+        #[br(assert(usize::from(self_0.header.num_entries) <= IndexPageContent::total_entries(page_size)))]
+        #[bw(args { page_size })]
+        IndexPageContent,
+    ),
 }
 
 impl PageContent {
@@ -566,6 +571,9 @@ pub struct Page {
 }
 
 impl Page {
+    /// Minimum size of a page in bytes, i.e. the space needed by an index page without any entries.
+    const MIN_SIZE: u32 = PageHeader::BINARY_SIZE + IndexPageHeader::BINARY_SIZE + 20;
+
     /// Allocate space for a new row in the page heap and return a function to
     /// insert the row at the allocated offset. Returns `None` if there is
     /// insufficient free space in the page.
-- 
2.43.0


From 4bb0c05110d95081e2f9337801acf42c20cc5699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 13/25] fix: do not allocate entries for more pages than the
 file contains

---
 src/pdb/io.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pdb/io.rs b/src/pdb/io.rs
index ca7876f..8a44e6c 100644
--- a/src/pdb/io.rs
+++ b/src/pdb/io.rs
@@ -34,7 +34,7 @@ struct LazyDatabase {
     #[br(args(db_type))]
     header: Header,
     /// The pages of the database, initially not loaded.
-    #[br(calc = vec![LazyPage::NotLoaded; header.next_unused_page.0.saturating_sub(1) as usize])]
+    #[br(parse_with = LazyPage::not_loaded_pages, args(&header))]
     // Seek to the first page instead of padding the header with `bw(pad_size_to = ...)`, because the
     // latter would write zeros over the rest of the header page.
     #[bw(seek_before = SeekFrom::Start(header.page_size.into()), args(header.page_size))]
@@ -47,6 +47,21 @@ enum LazyPage {
     Loaded(Page),
 }
 
+impl LazyPage {
+    /// Returns unloaded entries for all pages that are in use according to the header, but not for
+    /// more pages than the stream can contain.
+    fn not_loaded_pages<R: Read + Seek>(
+        reader: &mut R,
+        _endian: Endian,
+        (header,): (&Header,),
+    ) -> BinResult<Vec<Self>> {
+        let stream_len = reader.seek(SeekFrom::End(0))?;
+        let max_pages = stream_len.div_ceil(header.page_size.into());
+        let num_pages = max_pages.min(header.next_unused_page.0.into());
+        Ok(vec![Self::NotLoaded; num_pages.saturating_sub(1) as usize])
+    }
+}
+
 impl BinWrite for LazyPage {
     type Args<'a> = (u32,);
 
-- 
2.43.0


From 34e0887ee3035afe105d48dd5a2a052468e14d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 14/25] fix: refuse row allocations that overflow the sizes or
 row counts of a page

---
 src/pdb/bitfields.rs |  8 ++++++++
 src/pdb/mod.rs       | 10 ++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/pdb/bitfields.rs b/src/pdb/bitfields.rs
index 7b93471..8c85564 100644
--- a/src/pdb/bitfields.rs
+++ b/src/pdb/bitfields.rs
@@ -59,6 +59,14 @@ impl PackedRowCounts {
         Some((rgi, rsi))
     }
 
+    /// Returns `true` if the row counts cannot be incremented any further.
+    pub(crate) fn is_full(&self) -> bool {
+        self.with_num_rows_checked(self.num_rows() + 1).is_err()
+            || self
+                .with_num_rows_valid_checked(self.num_rows_valid() + 1)
+                .is_err()
+    }
+
     /// Increment the number of rows e.g. when we allocate a row in the page.
     pub(crate) fn increment_num_rows(&mut self) {
         self.set_num_rows(self.num_rows() + 1);
diff --git a/src/pdb/mod.rs b/src/pdb/mod.rs
index 7ab5c46..f9d0ad1 100644
--- a/src/pdb/mod.rs
+++ b/src/pdb/mod.rs
@@ -585,16 +585,18 @@ impl Page {
             PageContent::Index(_) => None,
             PageContent::Data(ref mut dpc) => {
                 // Always align rows to 4 bytes.
-                let bytes = bytes.next_multiple_of(4);
+                let bytes = bytes.checked_next_multiple_of(4)?;
 
                 // Assume the upper bound of required space.
-                let required_bytes = bytes + RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE;
-                if self.header.free_size < required_bytes {
+                let required_bytes =
+                    bytes.checked_add(RowGroup::HEADER_SIZE + RowGroup::OFFSET_SIZE)?;
+                if self.header.free_size < required_bytes || self.header.packed_row_counts.is_full()
+                {
                     return None;
                 }
 
                 let offset = self.header.used_size;
-                self.header.used_size += bytes;
+                self.header.used_size = offset.checked_add(bytes)?;
                 self.header.free_size -= bytes;
                 let row_counts = &mut self.header.packed_row_counts;
                 row_counts.increment_num_rows();
-- 
2.43.0


From 46d160d0be29225a31f62facc8ccebebf7e2f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:03 +0000
Subject: [PATCH 15/25] fix: detect cycles in the playlist tree instead of
 recursing endlessly

---
 src/device.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index f7250fa..d7603b7 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -13,10 +13,11 @@ use crate::{
     pdb::{DatabaseType, PlaylistTreeNode, PlaylistTreeNodeId},
     setting,
     setting::{Setting, SettingType},
+    util::RekordcrateError,
 };
 use binrw::BinRead;
 use fallible_iterator::FallibleIterator;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::io::{Read, Seek};
 use std::path::{Path, PathBuf};
@@ -533,20 +534,27 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
         Ok(())
     })?;
 
-    fn get_child_nodes(
-        playlists: &HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+    fn get_child_nodes<'a>(
+        playlists: &'a HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
+        visited: &'a mut HashSet<PlaylistTreeNodeId>,
         id: PlaylistTreeNodeId,
-    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + '_ {
+    ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + 'a {
         playlists
             .get(&id)
             .into_iter()
             .flat_map(|nodes| nodes.iter())
             .map(|node| -> crate::Result<PlaylistNode> {
                 let child_node = if node.is_folder() {
+                    // If there is more than one folder with this ID, we may be going in circles.
+                    if playlists.contains_key(&node.id) && !visited.insert(node.id) {
+                        return Err(RekordcrateError::IntegrityError(
+                            "playlist folder visited twice",
+                        ));
+                    }
                     let folder = PlaylistFolder {
                         id: node.id,
                         name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, node.id)
+                        children: get_child_nodes(playlists, visited, node.id)
                             .collect::<crate::Result<Vec<PlaylistNode>>>()?,
                     };
                     PlaylistNode::Folder(folder)
@@ -561,5 +569,7 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
             })
     }
 
-    get_child_nodes(&playlists, PlaylistTreeNodeId(0)).collect::<crate::Result<Vec<PlaylistNode>>>()
+    let root_id = PlaylistTreeNodeId(0);
+    let mut visited = HashSet::from([root_id]);
+    get_child_nodes(&playlists, &mut visited, root_id).collect::<crate::Result<Vec<PlaylistNode>>>()
 }
-- 
2.43.0


From ea2690a87c477e5da836e2ccb9ccf48bc5e91696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:20 +0000
Subject: [PATCH 16/25] fix: detect cycles when listing playlists instead of
 recursing endlessly

---
 src/main.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 818a014..b06e8f2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -87,7 +87,7 @@ enum Commands {
 
 fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::pdb::{PlaylistTreeNode, PlaylistTreeNodeId};
-    use std::collections::{BTreeMap, HashMap};
+    use std::collections::{BTreeMap, HashMap, HashSet};
 
     let reader = File::open(path)?;
     let mut db = Database::open_non_persistent(reader, DatabaseType::Plain)?;
@@ -152,13 +152,20 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         tree_entries: &HashMap<PlaylistTreeNodeId, BTreeMap<u32, TrackId>>,
         artists: &HashMap<ArtistId, Artist>,
         tracks: &HashMap<TrackId, Track>,
+        visited: &mut HashSet<PlaylistTreeNodeId>,
         id: PlaylistTreeNodeId,
         level: usize,
-    ) {
+    ) -> rekordcrate::Result<()> {
+        // If there is more than one node with this ID, we may be going in circles.
+        if tree.contains_key(&id) && !visited.insert(id) {
+            return Err(rekordcrate::Error::IntegrityError(
+                "playlist folder visited twice",
+            ));
+        }
         tree.get(&id)
             .iter()
             .flat_map(|nodes| nodes.iter())
-            .for_each(|node| {
+            .try_for_each(|node| {
                 let indentation = "    ".repeat(level);
                 println!(
                     "{}{} {}",
@@ -172,8 +179,16 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
                         print_track(track_id, artists, tracks);
                     }
                 }
-                print_children_of(tree, tree_entries, artists, tracks, node.id, level + 1);
-            });
+                print_children_of(
+                    tree,
+                    tree_entries,
+                    artists,
+                    tracks,
+                    visited,
+                    node.id,
+                    level + 1,
+                )
+            })
     }
 
     print_children_of(
@@ -181,11 +196,10 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         &playlist_entries,
         &artists,
         &tracks,
+        &mut HashSet::new(),
         PlaylistTreeNodeId(0),
         0,
-    );
-
-    Ok(())
+    )
 }
 
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
-- 
2.43.0


From 2dbf06bd62a9b53fecf5a5230aa2f988e5017041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:02 +0000
Subject: [PATCH 17/25] fix: report invalid XML files as an error instead of
 panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b06e8f2..eb116be 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -346,7 +346,7 @@ fn dump_setting(path: &Path, setting_type: SettingType) -> rekordcrate::Result<(
 fn dump_xml(path: &Path) -> rekordcrate::Result<()> {
     let file = File::open(path)?;
     let reader = std::io::BufReader::new(file);
-    let document: Document = quick_xml::de::from_reader(reader).expect("failed to deserialize XML");
+    let document: Document = quick_xml::de::from_reader(reader).map_err(std::io::Error::other)?;
     println!("{:#?}", document);
 
     Ok(())
-- 
2.43.0


From b8c9915d99a173a0fbef744de6027780d21f776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:07 +0000
Subject: [PATCH 18/25] fix: keep exported playlists inside the output
 directory

---
 src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index eb116be..64917e0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -230,6 +230,15 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         .map(|track| Ok((track.id, track.offsets.file_path.clone().into_string()?)))
         .collect::<HashMap<_, _>>()?;
 
+    // The names in the database may contain path separators or be special directory names.
+    fn file_name(name: &str) -> String {
+        let is_invalid = |c| std::path::is_separator(c) || c == '\0';
+        match name {
+            "" | "." | ".." => "_".into(),
+            name => name.replace(is_invalid, "_"),
+        }
+    }
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
@@ -239,7 +248,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
             PlaylistNode::Folder(folder) => folder
                 .children
                 .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(&folder.name), visit)),
+                .try_for_each(|child| walk_tree(child, &path.join(file_name(&folder.name)), visit)),
             PlaylistNode::Playlist(playlist) => visit(playlist, path),
         }
     }
@@ -247,7 +256,7 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     playlists.into_iter().try_for_each(|node| {
         walk_tree(node, output_dir, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", playlist.name));
+            let playlist_path = path.join(format!("{}.m3u", file_name(&playlist.name)));
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From 5930c9c41b5756d511ec354d0eaed57520637017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 19/25] fix: do not overwrite exported playlists that have the
 same name

---
 src/main.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 64917e0..7498f5d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -205,7 +205,8 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
 fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::device::{Playlist, PlaylistNode};
     use rekordcrate::DeviceExportLoader;
-    use std::collections::HashMap;
+    use std::cell::RefCell;
+    use std::collections::{HashMap, HashSet};
     use std::io::Write;
 
     let loader = DeviceExportLoader::new(path.into());
@@ -239,24 +240,41 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
         }
     }
 
+    // Playlists or folders in the same folder may have the same name.
+    let used_paths = RefCell::new(HashSet::new());
+    let unique_path = |dir: &Path, name: &str, extension: &str| {
+        let name = file_name(name);
+        let mut path = dir.join(format!("{name}{extension}"));
+        let mut number = 2;
+        while !used_paths.borrow_mut().insert(path.clone()) {
+            path = dir.join(format!("{name} ({number}){extension}"));
+            number += 1;
+        }
+        path
+    };
+
     fn walk_tree(
         node: PlaylistNode,
         path: &Path,
+        unique_path: &impl Fn(&Path, &str, &str) -> PathBuf,
         visit: &impl Fn(Playlist, &Path) -> rekordcrate::Result<()>,
     ) -> rekordcrate::Result<()> {
         match node {
-            PlaylistNode::Folder(folder) => folder
-                .children
-                .into_iter()
-                .try_for_each(|child| walk_tree(child, &path.join(file_name(&folder.name)), visit)),
+            PlaylistNode::Folder(folder) => {
+                let path = unique_path(path, &folder.name, "");
+                folder
+                    .children
+                    .into_iter()
+                    .try_for_each(|child| walk_tree(child, &path, unique_path, visit))
+            }
             PlaylistNode::Playlist(playlist) => visit(playlist, path),
         }
     }
 
     playlists.into_iter().try_for_each(|node| {
-        walk_tree(node, output_dir, &|playlist, path| {
+        walk_tree(node, output_dir, &unique_path, &|playlist, path| {
             std::fs::create_dir_all(path)?;
-            let playlist_path = path.join(format!("{}.m3u", file_name(&playlist.name)));
+            let playlist_path = unique_path(path, &playlist.name, ".m3u");
 
             println!("{}", playlist_path.display());
             let mut file = File::create(playlist_path)?;
-- 
2.43.0


From 836d908bc49856928ed94f9d3e476fa1235dee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:32 +0000
Subject: [PATCH 20/25] fix: read XML playlists, folders and collections that
 are empty

---
 src/xml.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 0f5d07d..2ab9e22 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -69,6 +69,7 @@ pub struct Collection {
 
     /// Track entries of collection.
     #[serde(rename = "TRACK")]
+    #[serde(default)]
     pub track: Vec<Track>,
 }
 
@@ -364,7 +365,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     // Create anonymous type
                                     #[derive(serde::Deserialize)]
                                     struct Nodes {
-                                        #[serde(rename = "NODE")]
+                                        #[serde(rename = "NODE", default)]
                                         content: Vec<PlaylistGenericNode>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -383,7 +384,7 @@ impl<'de> Deserialize<'de> for PlaylistGenericNode {
                                     // Create anonymous type
                                     #[derive(serde::Deserialize)]
                                     struct Tracks {
-                                        #[serde(rename = "TRACK")]
+                                        #[serde(rename = "TRACK", default)]
                                         content: Vec<PlaylistTrack>,
                                     }
                                     let de = serde::de::value::MapAccessDeserializer::new(map);
@@ -441,6 +442,7 @@ pub struct PlaylistFolderNode {
     // can just take the number of elements in the `tracks` vector instead.
     /// Nodes
     #[serde(rename = "NODE")]
+    #[serde(default)]
     pub nodes: Vec<PlaylistGenericNode>,
 }
 
-- 
2.43.0


From 003272c3ef17cabe8e5f0c6fce5753bee87cf708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:32 +0000
Subject: [PATCH 21/25] fix: report errors when writing the last line of
 list-settings

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 7498f5d..493ebd7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -299,11 +299,14 @@ fn export_playlists(path: &Path, output_dir: &Path) -> rekordcrate::Result<()> {
 
 fn list_settings(path: &Path) -> rekordcrate::Result<()> {
     use rekordcrate::DeviceExportLoader;
+    use std::io::Write;
 
     let loader = DeviceExportLoader::new(path.into());
     let settings = loader.load_settings();
 
     print!("{}", settings);
+    // There is no newline at the end, so the last line is still buffered.
+    std::io::stdout().flush()?;
 
     Ok(())
 }
-- 
2.43.0


From bf6b02ffc4e7bf1b93887475b17b187a02cddd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:26 +0000
Subject: [PATCH 22/25] fix: reject playlist folders nested too deeply instead
 of overflowing the stack

---
 src/device.rs | 16 +++++++++++++---
 src/main.rs   |  8 ++++++++
 src/xml.rs    | 30 ++++++++++++++++++++++++++++++
 3 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/src/device.rs b/src/device.rs
index d7603b7..b4a6357 100644
--- a/src/device.rs
+++ b/src/device.rs
@@ -522,6 +522,9 @@ pub struct Playlist {
     pub name: String,
 }
 
+/// Folders nested deeper than this are rejected, because the playlist tree is walked recursively.
+const MAX_FOLDER_DEPTH: usize = 256;
+
 /// Get playlist tree.
 pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<PlaylistNode>> {
     let mut playlists: HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>> = HashMap::new();
@@ -538,13 +541,19 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
         playlists: &'a HashMap<PlaylistTreeNodeId, Vec<PlaylistTreeNode>>,
         visited: &'a mut HashSet<PlaylistTreeNodeId>,
         id: PlaylistTreeNodeId,
+        depth: usize,
     ) -> impl Iterator<Item = crate::Result<PlaylistNode>> + 'a {
         playlists
             .get(&id)
             .into_iter()
             .flat_map(|nodes| nodes.iter())
-            .map(|node| -> crate::Result<PlaylistNode> {
+            .map(move |node| -> crate::Result<PlaylistNode> {
                 let child_node = if node.is_folder() {
+                    if depth >= MAX_FOLDER_DEPTH {
+                        return Err(RekordcrateError::IntegrityError(
+                            "playlist folders nested too deeply",
+                        ));
+                    }
                     // If there is more than one folder with this ID, we may be going in circles.
                     if playlists.contains_key(&node.id) && !visited.insert(node.id) {
                         return Err(RekordcrateError::IntegrityError(
@@ -554,7 +563,7 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
                     let folder = PlaylistFolder {
                         id: node.id,
                         name: node.name.clone().into_string()?,
-                        children: get_child_nodes(playlists, visited, node.id)
+                        children: get_child_nodes(playlists, visited, node.id, depth + 1)
                             .collect::<crate::Result<Vec<PlaylistNode>>>()?,
                     };
                     PlaylistNode::Folder(folder)
@@ -571,5 +580,6 @@ pub fn get_playlists<R: Read + Seek>(db: &mut Database<R>) -> crate::Result<Vec<
 
     let root_id = PlaylistTreeNodeId(0);
     let mut visited = HashSet::from([root_id]);
-    get_child_nodes(&playlists, &mut visited, root_id).collect::<crate::Result<Vec<PlaylistNode>>>()
+    get_child_nodes(&playlists, &mut visited, root_id, 0)
+        .collect::<crate::Result<Vec<PlaylistNode>>>()
 }
diff --git a/src/main.rs b/src/main.rs
index 493ebd7..0d64f77 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,6 +123,9 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         Ok(())
     })?;
 
+    // Folders nested deeper than this are rejected, because the tree is printed recursively.
+    const MAX_FOLDER_DEPTH: usize = 256;
+
     fn print_track(
         track_id: &TrackId,
         artists: &HashMap<ArtistId, Artist>,
@@ -156,6 +159,11 @@ fn list_playlists(path: &Path) -> rekordcrate::Result<()> {
         id: PlaylistTreeNodeId,
         level: usize,
     ) -> rekordcrate::Result<()> {
+        if tree.contains_key(&id) && level > MAX_FOLDER_DEPTH {
+            return Err(rekordcrate::Error::IntegrityError(
+                "playlist folders nested too deeply",
+            ));
+        }
         // If there is more than one node with this ID, we may be going in circles.
         if tree.contains_key(&id) && !visited.insert(id) {
             return Err(rekordcrate::Error::IntegrityError(
diff --git a/src/xml.rs b/src/xml.rs
index 2ab9e22..b5ce234 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -18,6 +18,7 @@
 type NaiveDate = String; //Replace with "use chrono::naive::NaiveDate;"
 use serde::{de::Error, ser::Serializer, Deserialize, Serialize};
 use std::borrow::Cow;
+use std::cell::Cell;
 
 /// The XML root element of a rekordbox XML file.
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
@@ -319,11 +320,40 @@ pub enum PlaylistGenericNode {
     Playlist(PlaylistPlaylistNode),
 }
 
+/// Nodes nested deeper than this are rejected, because they are deserialized recursively.
+const MAX_NODE_DEPTH: usize = 128;
+
+thread_local! {
+    /// Number of nodes that are currently being deserialized.
+    static NODE_DEPTH: Cell<usize> = const { Cell::new(0) };
+}
+
+/// Counts one level of nesting for as long as it exists.
+struct NodeDepthGuard;
+
+impl NodeDepthGuard {
+    fn enter<E: Error>() -> Result<Self, E> {
+        let depth = NODE_DEPTH.get();
+        if depth >= MAX_NODE_DEPTH {
+            return Err(E::custom("playlist nodes nested too deeply"));
+        }
+        NODE_DEPTH.set(depth + 1);
+        Ok(Self)
+    }
+}
+
+impl Drop for NodeDepthGuard {
+    fn drop(&mut self) {
+        NODE_DEPTH.set(NODE_DEPTH.get() - 1);
+    }
+}
+
 impl<'de> Deserialize<'de> for PlaylistGenericNode {
     fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
     where
         D: serde::Deserializer<'de>,
     {
+        let _guard = NodeDepthGuard::enter()?;
         struct PlaylistGenericNodeVisitor;
 
         impl<'de> serde::de::Visitor<'de> for PlaylistGenericNodeVisitor {
-- 
2.43.0


From 75ae0cc289e1cb23fde6fa2eb41e3c735c0609c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 23/25] fix: keep the stored length of an extended cue's
 comment

---
 src/anlz.rs | 94 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/src/anlz.rs b/src/anlz.rs
index 05e1835..1960210 100644
--- a/src/anlz.rs
+++ b/src/anlz.rs
@@ -268,6 +268,42 @@ impl LenPrefixedWideString {
             (self.0.encode_utf16().count() as u32 + 1) * 2
         }
     }
+
+    /// Reads the `len` bytes of encoded text that follow the length prefix.
+    fn read_text<R: Read + Seek>(
+        reader: &mut R,
+        endian: Endian,
+        (len,): (u32,),
+    ) -> BinResult<Self> {
+        let bytes = read_bytes(reader, endian, (len,))?;
+        let code_units: Vec<u16> = bytes
+            .chunks_exact(2)
+            .map(|c| u16::from_be_bytes([c[0], c[1]]))
+            .collect();
+        let s = String::from_utf16(&code_units)
+            .map(|s| s.trim_end_matches('\0').to_string())
+            .map_err(|e| binrw::Error::Custom {
+                pos: reader.stream_position().unwrap_or(0),
+                err: Box::new(e),
+            })?;
+        Ok(Self(s))
+    }
+
+    /// Writes the encoded text without the length prefix, filled up to `len` bytes with NULs.
+    fn write_text<W: Write + Seek>(
+        &self,
+        writer: &mut W,
+        _endian: Endian,
+        (len,): (u32,),
+    ) -> BinResult<()> {
+        let mut bytes: Vec<u8> = Vec::new();
+        for cu in self.0.encode_utf16() {
+            bytes.extend_from_slice(&cu.to_be_bytes());
+        }
+        bytes.resize(len as usize, 0);
+        writer.write_all(&bytes)?;
+        Ok(())
+    }
 }
 
 impl From<String> for LenPrefixedWideString {
@@ -299,21 +335,7 @@ impl BinRead for LenPrefixedWideString {
         _args: Self::Args<'_>,
     ) -> BinResult<Self> {
         let len: u32 = u32::read_options(reader, endian, ())?;
-        if len == 0 {
-            return Ok(Self(String::new()));
-        }
-        let bytes = read_bytes(reader, endian, (len,))?;
-        let code_units: Vec<u16> = bytes
-            .chunks_exact(2)
-            .map(|c| u16::from_be_bytes([c[0], c[1]]))
-            .collect();
-        let s = String::from_utf16(&code_units)
-            .map(|s| s.trim_end_matches('\0').to_string())
-            .map_err(|e| binrw::Error::Custom {
-                pos: reader.stream_position().unwrap_or(0),
-                err: Box::new(e),
-            })?;
-        Ok(Self(s))
+        Self::read_text(reader, endian, (len,))
     }
 }
 
@@ -326,17 +348,9 @@ impl BinWrite for LenPrefixedWideString {
         endian: Endian,
         _args: Self::Args<'_>,
     ) -> BinResult<()> {
-        let bl = self.byte_len();
-        bl.write_options(writer, endian, ())?;
-        if bl > 0 {
-            let mut bytes: Vec<u8> = Vec::new();
-            for cu in self.0.encode_utf16() {
-                bytes.extend_from_slice(&cu.to_be_bytes());
-            }
-            bytes.extend_from_slice(&[0, 0]);
-            writer.write_all(&bytes)?;
-        }
-        Ok(())
+        let len = self.byte_len();
+        len.write_options(writer, endian, ())?;
+        self.write_text(writer, endian, (len,))
     }
 }
 
@@ -380,8 +394,15 @@ pub struct ExtendedCue {
     pub loop_numerator: u16,
     /// Represents the loop size denominator (if this is a quantized loop).
     pub loop_denominator: u16,
+    /// Length of the comment in bytes.
+    #[br(temp)]
+    #[br(assert(len_comment % 2 == 0))]
+    #[bw(calc = Self::len_comment(header, comment, trailing))]
+    len_comment: u32,
     /// An UTF-16BE encoded string with a leading `u32` length prefix and a
     /// trailing NUL (`0x0000`).
+    #[br(parse_with = LenPrefixedWideString::read_text, args(len_comment))]
+    #[bw(args(len_comment), write_with = LenPrefixedWideString::write_text)]
     pub comment: LenPrefixedWideString,
     /// Rekordbox hotcue color index.
     ///
@@ -471,10 +492,29 @@ pub struct ExtendedCue {
     ///
     /// Per the Kaitai spec, the entry may contain extra data beyond the known fields;
     /// any remaining bytes are captured here.
-    #[br(parse_with = read_bytes, args(header.total_size.saturating_sub(68).saturating_sub(comment.byte_len())))]
+    #[br(parse_with = read_bytes, args(header.total_size.saturating_sub(Self::FIXED_SIZE).saturating_sub(len_comment)))]
     pub trailing: Vec<u8>,
 }
 
+impl ExtendedCue {
+    /// Size of all fields except for `comment` and `trailing` in bytes.
+    const FIXED_SIZE: u32 = 68;
+
+    /// Returns the length of the comment field in bytes.
+    ///
+    /// This is what the header accounts for, because the text can also be followed by more than
+    /// one NUL or by none at all, unless the text no longer fits in there.
+    fn len_comment(header: &Header, comment: &LenPrefixedWideString, trailing: &[u8]) -> u32 {
+        let len_text = comment.encode_utf16().count() as u64 * 2;
+        let len_fixed = u64::from(Self::FIXED_SIZE) + trailing.len() as u64;
+        u64::from(header.total_size)
+            .checked_sub(len_fixed)
+            .filter(|len| *len >= len_text && len % 2 == 0)
+            .and_then(|len| u32::try_from(len).ok())
+            .unwrap_or_else(|| comment.byte_len())
+    }
+}
+
 impl Default for WaveformPreviewColumn {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From ae0b8b5f3c62c1bebaced645f4d8b082afc0b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:23 +0000
Subject: [PATCH 24/25] fix: leave out attributes of XML tracks that are not
 set

A track without, say, a year was written with an empty attribute, which
cannot be read back.
---
 src/xml.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index b5ce234..f69cf9a 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -84,57 +84,70 @@ pub struct Track {
 
     /// Name of track
     #[serde(rename = "@Name")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub name: Option<String>,
 
     /// Name of artist
     #[serde(rename = "@Artist")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub artist: Option<String>,
 
     /// Name of composer (or producer)
     #[serde(rename = "@Composer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub composer: Option<String>,
 
     /// Name of Album
     #[serde(rename = "@Album")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub album: Option<String>,
 
     /// Name of goupe
     #[serde(rename = "@Grouping")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub grouping: Option<String>,
 
     /// Name of genre
     #[serde(rename = "@Genre")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub genre: Option<String>,
 
     /// Type of audio file
     #[serde(rename = "@Kind")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub kind: Option<String>,
 
     /// Size of audio file
     /// Unit : Octet
     #[serde(rename = "@Size")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub size: Option<i64>,
 
     /// Duration of track
     /// Unit : Second (without decimal numbers)
     #[serde(rename = "@TotalTime")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub totaltime: Option<f64>,
 
     /// Order number of the disc of the album
     #[serde(rename = "@DiscNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub discnumber: Option<i32>,
 
     /// Order number of the track in the album
     #[serde(rename = "@TrackNumber")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tracknumber: Option<i32>,
 
     /// Year of release
     #[serde(rename = "@Year")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub year: Option<i32>,
 
     /// Value of average BPM
     /// Unit : Second (with decimal numbers)
     #[serde(rename = "@AverageBpm")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub averagebpm: Option<f64>,
 
     /// Date of last modification
@@ -152,19 +165,23 @@ pub struct Track {
     /// Encoding bit rate
     /// Unit : Kbps
     #[serde(rename = "@BitRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub bitrate: Option<i32>,
 
     /// Frequency of sampling
     /// Unit : Hertz
     #[serde(rename = "@SampleRate")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub samplerate: Option<f64>,
 
     /// Comments
     #[serde(rename = "@Comments")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub comments: Option<String>,
 
     /// Play count of the track
     #[serde(rename = "@PlayCount")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub playcount: Option<i32>,
 
     /// Date of last playing
@@ -176,6 +193,7 @@ pub struct Track {
     /// Rating of the track
     /// 0 star = "@0", 1 star = "51", 2 stars = "102", 3 stars = "153", 4 stars = "204", 5 stars = "255"
     #[serde(rename = "@Rating")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub rating: Option<i32>, // TODO: Use StarRating type here
 
     /// Location of the file
@@ -185,18 +203,22 @@ pub struct Track {
 
     /// Name of remixer
     #[serde(rename = "@Remixer")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub remixer: Option<String>,
 
     /// Tonality (Kind of musical key)
     #[serde(rename = "@Tonality")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub tonality: Option<String>,
 
     /// Name of record label
     #[serde(rename = "@Label")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub label: Option<String>,
 
     /// Name of mix
     #[serde(rename = "@Mix")]
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub mix: Option<String>,
 
     /// Colour for track grouping
-- 
2.43.0


From 101383335ce714597478af85d368969cc1ea70a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:30 +0000
Subject: [PATCH 25/25] fix: write the type of the root node of XML playlists

The root node is a folder like any other, but was written without the Type
attribute that every node has.
---
 src/xml.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index f69cf9a..987ed86 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -326,9 +326,25 @@ pub struct PositionMark {
 pub struct Playlists {
     /// The root node of all playlists.
     #[serde(rename = "NODE")]
+    #[serde(serialize_with = "serialize_root_node")]
     pub node: PlaylistFolderNode,
 }
 
+/// Serialize the root node like any other folder, i.e. including its `Type` attribute.
+fn serialize_root_node<S>(node: &PlaylistFolderNode, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    #[derive(Serialize)]
+    #[serde(tag = "@Type")]
+    enum RootNode<'a> {
+        #[serde(rename = "0")]
+        Folder(&'a PlaylistFolderNode),
+    }
+
+    RootNode::Folder(node).serialize(serializer)
+}
+
 /// The type of a playlist node.
 #[derive(Debug, PartialEq, Clone, Serialize)]
 #[serde(tag = "@Type")]
-- 
2.43.0

