From 8588d3be2e232a66c138f651470f9b77efc66e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:48 +0000
Subject: [PATCH 01/27] fix: reject objects longer than their declared length

Buffer::read_to_end only looked for surplus bytes in the reader and
returned those that were already buffered as part of the contents.
---
 src/parse/buffer.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index a601acd..195ff7c 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -160,6 +160,10 @@ impl<R: Read> Buffer<R> {
     /// bytes read is not `size`, returns an error.
     pub fn read_to_end(mut self, size: usize) -> Result<Bytes, Error> {
         self.read_exact(size)?;
+        if self.pos != self.buffer.len() {
+            // More bytes than expected have already been read
+            return Err(Error::InvalidLength);
+        }
 
         // Read::read_to_end will grow the buffer unnecessarily for the
         // final zero-sized read call. Since we know the buffer size
-- 
2.43.0


From 1d1ad4e5363f74e7f5708b881f48ab1fc91adea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 02/27] fix: don't allocate buffers of the size a header claims

A corrupt header could make Buffer::fill_buf_to allocate an arbitrary
amount of memory before a single byte was read.
---
 src/parse/buffer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 195ff7c..f23ef53 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::io::{self, Read, Seek, SeekFrom};
 use std::mem;
 use std::ops::{Index, Range};
@@ -10,6 +11,10 @@ use memchr::memchr;
 use crate::object::{Id, ID_LEN};
 use crate::parse::{Error, Parser};
 
+/// The most bytes the buffer grows by before reading into it. The sizes
+/// requested come from the data being parsed, so they can't be trusted.
+const MAX_READ_LEN: usize = 64 * 1024;
+
 /// Similar to std::io::BufReader, but with a variable sized buffer
 /// specialized for parsing git objects.
 pub(crate) struct Buffer<R> {
@@ -139,8 +144,6 @@ impl<R: Read> Buffer<R> {
     pub fn read_exact(&mut self, size: usize) -> Result<Range<usize>, Error> {
         let start = self.pos;
         let end = self.pos.checked_add(size).ok_or(Error::InvalidLength)?;
-        self.buffer.reserve(self.buffer.len().saturating_sub(end));
-
         while self.pos != end {
             let buf = match self.fill_buf_to(end) {
                 Ok(&[]) => return Err(Error::InvalidLength),
@@ -186,6 +189,7 @@ impl<R: Read> Buffer<R> {
             // TODO ideally we would pass an uninitialized buffer to
             // the reader, but `Read::initializer` isn't stable yet.
             let old_len = self.buffer.len();
+            let end = cmp::min(end, old_len.saturating_add(MAX_READ_LEN));
             self.buffer.resize(end, b'\0');
 
             match self.reader.read(&mut self.buffer[old_len..]) {
-- 
2.43.0


From a2350909e5bdd653ee1cd25c529679d47a478d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 03/27] fix: decode delta commands correctly

The mask for copy commands was missing a bit, the first command panicked
because the result has no initialized bytes to copy over, and bytes of
following commands that were already buffered were dropped.
---
 src/object/database/packed/delta.rs | 9 ++++++---
 src/parse/buffer.rs                 | 7 ++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/object/database/packed/delta.rs b/src/object/database/packed/delta.rs
index b46ed1b..55563ad 100644
--- a/src/object/database/packed/delta.rs
+++ b/src/object/database/packed/delta.rs
@@ -40,7 +40,7 @@ where
     R: Read,
 {
     let header = delta.read_delta_header()?;
-    let mut result = BytesMut::with_capacity(header.result_len);
+    let mut result = BytesMut::new();
 
     if header.base_len != base.len() {
         return Err(DeltaError::BaseLengthMismatch);
@@ -61,7 +61,10 @@ where
             }
         };
 
-        result.copy_from_slice(&src);
+        if header.result_len - result.len() < src.len() {
+            return Err(DeltaError::ResultLengthMismatch);
+        }
+        result.extend_from_slice(&src);
         delta.clear_buffer();
     }
 
@@ -132,7 +135,7 @@ where
             Err(err) => return Err(err.into()),
         };
 
-        if intersects(cmd, 0b1000_000) {
+        if intersects(cmd, 0b1000_0000) {
             let mut offset = 0;
             if intersects(cmd, 0b0000_0001) {
                 offset |= u64::from(self.read_byte()?) << 0;
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index f23ef53..f9039ff 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -4,7 +4,7 @@ use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
-use bytes::{Bytes, BytesMut};
+use bytes::{Buf, Bytes, BytesMut};
 use flate2::read::ZlibDecoder;
 use memchr::memchr;
 
@@ -53,10 +53,11 @@ impl<R: Read> Buffer<R> {
         mem::take(&mut self.buffer).freeze().slice(range)
     }
 
-    /// Clear the internal buffer
+    /// Discard the bytes already observed from the internal buffer. Bytes that
+    /// were read ahead are kept.
     pub fn clear_buffer(&mut self) {
+        self.buffer.advance(self.pos);
         self.pos = 0;
-        self.buffer.clear();
     }
 
     /// Create a parser for the given range of bytes.
-- 
2.43.0


From c3a3109d2cdcd9a0ad18ea4043a04f3e5f55fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 04/27] fix: decompress packed objects

Base objects were cached and returned without decompressing them, and
deltas were decompressed as if their length were the compressed length.
Readers for packed objects now yield the object header first, like those
for loose objects do, and don't decompress the result of a delta again.
---
 src/object/database/loose.rs       |  2 +-
 src/object/database/packed/pack.rs |  6 ++--
 src/object/database/reader.rs      | 51 +++++++-----------------------
 src/object/parse.rs                | 15 +++++++++
 src/parse/buffer.rs                | 24 ++++----------
 5 files changed, 37 insertions(+), 61 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 1532126..335c8cb 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -58,7 +58,7 @@ impl LooseObjectDatabase {
         path.push(file);
 
         match fs_err::File::open(path) {
-            Ok(file) => Ok(ObjectReader::from_file(None, file)),
+            Ok(file) => Ok(ObjectReader::from_file(file)),
             Err(err) if err.kind() == io::ErrorKind::NotFound => Err(ReadLooseError::NotFound),
             Err(err) => Err(err.into()),
         }
diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 56c751f..d07cc9e 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -174,8 +174,7 @@ impl PackFile {
                     offset
                 }
                 _ => {
-                    let base = buffer.read_exact(header.len)?;
-                    let base = buffer.take_buffer(base);
+                    let base = buffer.decompress().read_to_end(header.len)?;
                     cache_entry.insert((header, base.clone()));
                     return Ok((chain, header, base));
                 }
@@ -203,7 +202,8 @@ impl PackFile {
 
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
-        let result = apply_delta(delta.header.kind, &base, &mut buffer.decompress_exact(delta.header.len))?;
+        let data = buffer.decompress().read_to_end(delta.header.len)?;
+        let result = apply_delta(delta.header.kind, &base, &mut parse::Buffer::new(data.as_ref()))?;
 
         Ok(self
             .cache
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index 17db42e..c4588ab 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -1,6 +1,6 @@
-use std::io::{self, BufRead, BufReader, Read};
+use std::io::{self, BufReader, Read};
 
-use bytes::buf::ext::BufExt;
+use bytes::buf::ext::{BufExt, Chain, Reader};
 use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
 
@@ -8,34 +8,27 @@ use crate::object::parse::ParseObjectError;
 use crate::object::{ObjectData, ObjectHeader};
 use crate::parse;
 
+/// Reads an object as it is hashed: its header, followed by its contents.
 pub struct ObjectReader {
-    header: Option<ObjectHeader>,
-    reader: ZlibDecoder<ReaderKind>,
+    reader: ReaderKind,
 }
 
 enum ReaderKind {
-    File(BufReader<fs_err::File>),
-    Bytes(bytes::buf::ext::Reader<Bytes>),
+    File(ZlibDecoder<BufReader<fs_err::File>>),
+    Bytes(Reader<Chain<Bytes, Bytes>>),
 }
 
 impl ObjectReader {
-    pub(in crate::object) fn from_file(
-        header: impl Into<Option<ObjectHeader>>,
-        file: fs_err::File,
-    ) -> Self {
+    pub(in crate::object) fn from_file(file: fs_err::File) -> Self {
         ObjectReader {
-            header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::File(BufReader::new(file))),
+            reader: ReaderKind::File(ZlibDecoder::new(BufReader::new(file))),
         }
     }
 
-    pub(in crate::object) fn from_bytes(
-        header: impl Into<Option<ObjectHeader>>,
-        bytes: Bytes,
-    ) -> Self {
+    pub(in crate::object) fn from_bytes(header: ObjectHeader, bytes: Bytes) -> Self {
+        let header = Bytes::from(header.to_string());
         ObjectReader {
-            header: header.into(),
-            reader: ZlibDecoder::new(ReaderKind::Bytes(bytes.reader())),
+            reader: ReaderKind::Bytes(header.chain(bytes).reader()),
         }
     }
 
@@ -46,11 +39,7 @@ impl ObjectReader {
     pub(in crate::object) fn parse(self) -> Result<ObjectData, ParseObjectError> {
         let mut buffer = parse::Buffer::new(self.reader);
 
-        let header = match self.header {
-            Some(header) => header,
-            None => buffer.read_object_header()?,
-        };
-
+        let header = buffer.read_object_header()?;
         buffer.read_object_body(header)
     }
 }
@@ -63,19 +52,3 @@ impl Read for ReaderKind {
         }
     }
 }
-
-impl BufRead for ReaderKind {
-    fn fill_buf(&mut self) -> io::Result<&[u8]> {
-        match self {
-            ReaderKind::File(file) => file.fill_buf(),
-            ReaderKind::Bytes(bytes) => bytes.fill_buf(),
-        }
-    }
-
-    fn consume(&mut self, amt: usize) {
-        match self {
-            ReaderKind::File(file) => file.consume(amt),
-            ReaderKind::Bytes(bytes) => bytes.consume(amt),
-        }
-    }
-}
diff --git a/src/object/parse.rs b/src/object/parse.rs
index baf512f..1e3798f 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -1,3 +1,4 @@
+use std::fmt;
 use std::io::{self, Read};
 use std::str::{self, FromStr};
 
@@ -70,6 +71,20 @@ impl ObjectHeader {
     const MAX_LEN: usize = 28;
 }
 
+impl fmt::Display for ObjectHeader {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        let kind = match self.kind {
+            ObjectKind::Commit => "commit",
+            ObjectKind::Tree => "tree",
+            ObjectKind::Blob => "blob",
+            ObjectKind::Tag => "tag",
+            ObjectKind::OfsDelta => "ofs-delta",
+            ObjectKind::RefDelta => "ref-delta",
+        };
+        write!(f, "{} {}\0", kind, self.len)
+    }
+}
+
 impl<R: Read> Buffer<R> {
     pub(in crate::object) fn read_object_header(
         &mut self,
diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index f9039ff..8879035 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -1,6 +1,5 @@
 use std::cmp;
 use std::io::{self, Read, Seek, SeekFrom};
-use std::mem;
 use std::ops::{Index, Range};
 use std::slice::SliceIndex;
 
@@ -45,14 +44,6 @@ impl<R: Read> Buffer<R> {
         self.pos
     }
 
-    /// Empty the internal buffer and return it.
-    ///
-    /// The position of the reader is unspecified after this operation.
-    pub fn take_buffer(&mut self, range: Range<usize>) -> Bytes {
-        self.pos = 0;
-        mem::take(&mut self.buffer).freeze().slice(range)
-    }
-
     /// Discard the bytes already observed from the internal buffer. Bytes that
     /// were read ahead are kept.
     pub fn clear_buffer(&mut self) {
@@ -68,15 +59,12 @@ impl<R: Read> Buffer<R> {
         Parser::new(&self[range])
     }
 
-    /// Return a buffer that decompresses exactly `compressed_size` bytes from this buffer.
-    pub fn decompress_exact<'a>(
-        &'a mut self,
-        compressed_size: usize,
-    ) -> Buffer<ZlibDecoder<impl Read + 'a>> {
-        debug_assert_eq!(self.pos, self.buffer.len()); // Ensure there is no buffered data
-
-        let reader = ZlibDecoder::new(self.reader.by_ref().take(compressed_size as u64));
-        Buffer::new(reader)
+    /// Return a buffer that decompresses the zlib stream starting at the current position.
+    ///
+    /// The position of the reader is unspecified after this operation.
+    pub fn decompress<'a>(&'a mut self) -> Buffer<ZlibDecoder<impl Read + 'a>> {
+        let buffered = &self.buffer[self.pos..];
+        Buffer::new(ZlibDecoder::new(buffered.chain(&mut self.reader)))
     }
 
     /// Read an exact number of bytes and create a parser.
-- 
2.43.0


From 48cea2b55b2fa54b7d7e99f9ba8f3c5b19ebd367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:41 +0000
Subject: [PATCH 05/27] fix: apply delta chains starting from the base object

Deltas were applied in the order they were found, which is the reverse,
and the result was given the kind of the delta instead of the base.
---
 src/object/database/packed/pack.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index d07cc9e..73bda70 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -127,8 +127,8 @@ impl PackFile {
         offset: u64,
     ) -> Result<ObjectReader, ReadPackFileError> {
         let (chain, mut header, mut base) = self.find_chain(index, offset)?;
-        for entry in chain {
-            let (new_header, new_base) = self.apply_delta(base, entry)?;
+        for entry in chain.into_iter().rev() {
+            let (new_header, new_base) = self.apply_delta(header.kind, base, entry)?;
             header = new_header;
             base = new_base;
         }
@@ -195,6 +195,7 @@ impl PackFile {
 
     fn apply_delta(
         &self,
+        kind: ObjectKind,
         base: Bytes,
         delta: ChainEntry,
     ) -> Result<(ObjectHeader, Bytes), ReadPackFileError> {
@@ -203,7 +204,7 @@ impl PackFile {
         buffer.seek(SeekFrom::Start(delta.offset))?;
 
         let data = buffer.decompress().read_to_end(delta.header.len)?;
-        let result = apply_delta(delta.header.kind, &base, &mut parse::Buffer::new(data.as_ref()))?;
+        let result = apply_delta(kind, &base, &mut parse::Buffer::new(data.as_ref()))?;
 
         Ok(self
             .cache
-- 
2.43.0


From 813c97c1f74a2c83fd0dcaf2194c5a56fe472153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 06/27] fix: decode multi-byte delta offsets correctly

---
 src/object/database/packed/pack.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 73bda70..04b005f 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -279,11 +279,12 @@ impl<R: Read> parse::Buffer<R> {
             .ok_or(ReadPackFileError::Other("invalid delta offset"))?;
         let parser = &mut self.parser(range);
 
-        let mut offset: u64 = 0;
+        let mut offset = u64::from(parser.parse_byte()? & 0b0111_1111);
         while parser.remaining() != 0 {
             let byte = parser.parse_byte()?;
-            offset <<= 7;
-            offset += u64::from(byte & 0b0111_1111);
+            // Each continuation byte adds one so that every offset has a single encoding
+            offset = offset.saturating_add(1).saturating_mul(1 << 7);
+            offset = offset.saturating_add(u64::from(byte & 0b0111_1111));
         }
 
         Ok(offset)
-- 
2.43.0


From 5f24ebc624933b9c36d83c8cff76f63ba9a47145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 07/27] fix: detect loops of several deltas

Deltas by id can form loops longer than one entry, which were followed
forever while the chain grew.
---
 src/object/database/packed/pack.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed/pack.rs b/src/object/database/packed/pack.rs
index 04b005f..5bb1340 100644
--- a/src/object/database/packed/pack.rs
+++ b/src/object/database/packed/pack.rs
@@ -186,7 +186,8 @@ impl PackFile {
                 header,
             });
 
-            if base_offset == offset {
+            // A chain without a loop can't be longer than the pack
+            if base_offset == offset || chain.len() > self.count as usize {
                 return Err(ReadPackFileError::Other("loop in deltas"));
             }
             offset = base_offset;
-- 
2.43.0


From 51b343748f94202d197872157b2fc804b98c4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:03 +0000
Subject: [PATCH 08/27] fix: check that parsed objects match their id

Damaged or misplaced objects were returned as if they were intact.
---
 src/object/database.rs        | 2 +-
 src/object/database/reader.rs | 6 +++---
 src/object/parse.rs           | 8 +++++++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index d7ce623..10087ed 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -51,7 +51,7 @@ impl ObjectDatabase {
     }
 
     pub fn parse_object(&self, id: Id) -> Result<Object, ReadObjectError> {
-        match self.read_object(id)?.parse() {
+        match self.read_object(id)?.parse(&id) {
             Ok(data) => Ok(Object { id, data }),
             Err(err) => Err(ReadObjectError::new(id, err)),
         }
diff --git a/src/object/database/reader.rs b/src/object/database/reader.rs
index c4588ab..8409c7b 100644
--- a/src/object/database/reader.rs
+++ b/src/object/database/reader.rs
@@ -5,7 +5,7 @@ use bytes::Bytes;
 use flate2::bufread::ZlibDecoder;
 
 use crate::object::parse::ParseObjectError;
-use crate::object::{ObjectData, ObjectHeader};
+use crate::object::{Id, ObjectData, ObjectHeader};
 use crate::parse;
 
 /// Reads an object as it is hashed: its header, followed by its contents.
@@ -36,11 +36,11 @@ impl ObjectReader {
         &mut self.reader
     }
 
-    pub(in crate::object) fn parse(self) -> Result<ObjectData, ParseObjectError> {
+    pub(in crate::object) fn parse(self, id: &Id) -> Result<ObjectData, ParseObjectError> {
         let mut buffer = parse::Buffer::new(self.reader);
 
         let header = buffer.read_object_header()?;
-        buffer.read_object_body(header)
+        buffer.read_object_body(id, header)
     }
 }
 
diff --git a/src/object/parse.rs b/src/object/parse.rs
index 1e3798f..c29e3a9 100644
--- a/src/object/parse.rs
+++ b/src/object/parse.rs
@@ -6,7 +6,7 @@ use bytes::Bytes;
 use thiserror::Error;
 
 use crate::object::{
-    Blob, Commit, ObjectData, ObjectHeader, ObjectKind, ParseBlobError, ParseCommitError,
+    Blob, Commit, Id, ObjectData, ObjectHeader, ObjectKind, ParseBlobError, ParseCommitError,
     ParseTagError, ParseTreeError, Tag, Tree,
 };
 use crate::parse::{self, Buffer, Parser};
@@ -39,6 +39,8 @@ pub(in crate::object) enum ParseObjectError {
         #[from]
         ParseTagError,
     ),
+    #[error("the contents of the object don't match its id")]
+    IdMismatch,
     #[error("io error reading object")]
     Io(
         #[source]
@@ -102,11 +104,15 @@ impl<R: Read> Buffer<R> {
 
     pub(in crate::object) fn read_object_body(
         self,
+        id: &Id,
         header: ObjectHeader,
     ) -> Result<ObjectData, ParseObjectError> {
         let parser = self
             .read_to_end_into_parser(header.len)
             .map_err(ParseHeaderError::from)?;
+        if Id::from_hash(&parser[..]) != *id {
+            return Err(ParseObjectError::IdMismatch);
+        }
         parser.parse_object_body(header.kind)
     }
 }
-- 
2.43.0


From c8a7534e66b605367f52a6b13fef2215f64f95f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 09/27] fix: reject index files with a partial large offset

Looking up any object in such an index panicked.
---
 src/object/database/packed/index.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/object/database/packed/index.rs b/src/object/database/packed/index.rs
index a07d207..680fbd9 100644
--- a/src/object/database/packed/index.rs
+++ b/src/object/database/packed/index.rs
@@ -134,6 +134,12 @@ impl IndexFile {
                 "index length is an invalid length",
             ));
         }
+        // What follows the entries is the table of 8-byte offsets
+        if (parser.remaining() - min_size) % 8 != 0 {
+            return Err(ReadIndexFileError::Other(
+                "index length is an invalid length",
+            ));
+        }
 
         Ok(IndexFile {
             data: parser.into_inner(),
-- 
2.43.0


From 0c6228e3e716c232cd3fc00e2220ab4ea8c9ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 10/27] fix: treat a missing pack directory as having no packs

Every read failed in a repository without packs directory.
---
 src/object/database/packed.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 8a77c04..1699579 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -134,7 +134,13 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        for entry in fs_err::read_dir(&self.path)? {
+        let entries = match fs_err::read_dir(&self.path) {
+            Ok(entries) => entries,
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(true),
+            Err(err) => return Err(err.into()),
+        };
+
+        for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
                 self.packs
-- 
2.43.0


From 1ca8382de3b5cb4a39d9d8f4842dbff875685c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 11/27] fix: don't let a damaged pack hide objects stored
 elsewhere

A single pack that couldn't be opened or read made every lookup fail,
including those of loose objects and objects in other packs.
---
 src/object/database.rs        | 26 ++++++++++--------
 src/object/database/packed.rs | 52 +++++++++++++++++++++++++----------
 2 files changed, 51 insertions(+), 27 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index 10087ed..93fb9d7 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -58,22 +58,24 @@ impl ObjectDatabase {
     }
 
     pub fn read_object(&self, id: Id) -> Result<ObjectReader, ReadObjectError> {
-        match self.packed.read_object(&ShortId::from(id)) {
-            Ok(reader) => return Ok(reader),
-            Err(ReadPackedError::NotFound) => (),
-            Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
-        };
+        // If the packs can't be read, the object may still be found in the loose database
+        if let Ok(reader) = self.packed.read_object(&ShortId::from(id)) {
+            return Ok(reader);
+        }
 
-        match self.loose.read_object(&id) {
+        let loose_error = match self.loose.read_object(&id) {
             Ok(reader) => return Ok(reader),
-            Err(ReadLooseError::NotFound) => (),
-            Err(err) => return Err(ReadObjectError::new(id, ReadError::from(err))),
-        }
+            Err(err) => err,
+        };
 
         // object may have just been packed, try again
-        self.packed
-            .read_object(&ShortId::from(id))
-            .map_err(|err| ReadObjectError::new(id, ReadError::from(err)))
+        match self.packed.read_object(&ShortId::from(id)) {
+            Ok(reader) => Ok(reader),
+            Err(ReadPackedError::NotFound) => {
+                Err(ReadObjectError::new(id, ReadError::from(loose_error)))
+            }
+            Err(err) => Err(ReadObjectError::new(id, ReadError::from(err))),
+        }
     }
 
     pub fn write_object(&self, bytes: &[u8]) -> Result<Id, WriteError> {
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 1699579..bf15fb2 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -83,14 +83,23 @@ impl PackedObjectDatabase {
         short_id: &ShortId,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) if self.refresh()? => self.try_read_object(short_id),
+            Err(ReadPackedError::NotFound) => match self.refresh() {
+                Ok(true) => self.try_read_object(short_id),
+                Ok(false) => Err(ReadPackedError::NotFound),
+                // If a pack can't be opened, another may still have the object
+                Err(refresh_err) => match self.try_read_object(short_id) {
+                    Err(ReadPackedError::NotFound) => Err(refresh_err),
+                    result => result,
+                },
+            },
             result => result,
         }
     }
 
     fn try_read_object(&self, short_id: &ShortId) -> Result<ObjectReader, ReadPackedError> {
-        let mut result = None;
+        let mut results = Vec::new();
         let mut found_id = None;
+        let mut error = None;
         for entry in self.packs.iter() {
             match entry.value().index.find_offset(short_id) {
                 Err(FindIndexOffsetError::Ambiguous) => return Err(ReadPackedError::Ambiguous),
@@ -99,11 +108,11 @@ impl PackedObjectDatabase {
                 }
                 Ok((offset, id)) => {
                     found_id = Some(id);
-                    result = Some((entry.value().clone(), offset))
+                    results.push((entry.value().clone(), offset))
                 }
                 Err(FindIndexOffsetError::NotFound) => continue,
                 Err(FindIndexOffsetError::ReadIndexFile(err)) => {
-                    return Err(ReadPackedError::ReadEntry(ReadEntryError {
+                    error = Some(ReadPackedError::ReadEntry(ReadEntryError {
                         name: entry.name.clone(),
                         kind: ReadEntryErrorKind::ReadIndexFile(err),
                     }))
@@ -111,16 +120,20 @@ impl PackedObjectDatabase {
             }
         }
 
-        match result {
-            Some((entry, offset)) => match entry.pack.read_object(&entry.index, offset) {
-                Ok(reader) => Ok(reader),
-                Err(err) => Err(ReadPackedError::ReadEntry(ReadEntryError {
-                    name: entry.name.clone(),
-                    kind: ReadEntryErrorKind::ReadPackFile(err),
-                })),
-            },
-            None => Err(ReadPackedError::NotFound),
+        // If a pack is damaged, another may still have the object
+        for (entry, offset) in results {
+            match entry.pack.read_object(&entry.index, offset) {
+                Ok(reader) => return Ok(reader),
+                Err(err) => {
+                    error = Some(ReadPackedError::ReadEntry(ReadEntryError {
+                        name: entry.name.clone(),
+                        kind: ReadEntryErrorKind::ReadPackFile(err),
+                    }))
+                }
+            }
         }
+
+        Err(error.unwrap_or(ReadPackedError::NotFound))
     }
 
     fn refresh(&self) -> Result<bool, ReadPackedError> {
@@ -140,15 +153,24 @@ impl PackedObjectDatabase {
             Err(err) => return Err(err.into()),
         };
 
+        let mut error = None;
         for entry in entries {
             let path = entry?.path();
             if path.extension() == Some("idx".as_ref()) {
-                self.packs
+                if let Err(err) = self
+                    .packs
                     .entry(path.clone())
-                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))?;
+                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))
+                {
+                    error = Some(err);
+                }
             }
         }
 
+        if let Some(err) = error {
+            return Err(err.into());
+        }
+
         *last_refresh_guard = Some(Instant::now());
         Ok(true)
     }
-- 
2.43.0


From 976abf8e95f935d1f456ab9bb390dacbce06ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:00 +0000
Subject: [PATCH 12/27] fix: look for new packs before reporting an object as
 not found

Packs added within two seconds of the last time the pack directory was
listed were ignored, so objects moved into them went missing.
---
 src/object/database.rs        | 4 ++--
 src/object/database/packed.rs | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index 93fb9d7..9715fb9 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -59,7 +59,7 @@ impl ObjectDatabase {
 
     pub fn read_object(&self, id: Id) -> Result<ObjectReader, ReadObjectError> {
         // If the packs can't be read, the object may still be found in the loose database
-        if let Ok(reader) = self.packed.read_object(&ShortId::from(id)) {
+        if let Ok(reader) = self.packed.read_object(&ShortId::from(id), false) {
             return Ok(reader);
         }
 
@@ -69,7 +69,7 @@ impl ObjectDatabase {
         };
 
         // object may have just been packed, try again
-        match self.packed.read_object(&ShortId::from(id)) {
+        match self.packed.read_object(&ShortId::from(id), true) {
             Ok(reader) => Ok(reader),
             Err(ReadPackedError::NotFound) => {
                 Err(ReadObjectError::new(id, ReadError::from(loose_error)))
diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index bf15fb2..5ad9f86 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -81,9 +81,10 @@ impl PackedObjectDatabase {
     pub(in crate::object::database) fn read_object(
         &self,
         short_id: &ShortId,
+        force_refresh: bool,
     ) -> Result<ObjectReader, ReadPackedError> {
         match self.try_read_object(short_id) {
-            Err(ReadPackedError::NotFound) => match self.refresh() {
+            Err(ReadPackedError::NotFound) => match self.refresh(force_refresh) {
                 Ok(true) => self.try_read_object(short_id),
                 Ok(false) => Err(ReadPackedError::NotFound),
                 // If a pack can't be opened, another may still have the object
@@ -136,12 +137,12 @@ impl PackedObjectDatabase {
         Err(error.unwrap_or(ReadPackedError::NotFound))
     }
 
-    fn refresh(&self) -> Result<bool, ReadPackedError> {
+    fn refresh(&self, force: bool) -> Result<bool, ReadPackedError> {
         // Keep the mutex locked while refreshing so we don't have multiple thread refreshing simultaneously.
         // This isn't necessary for correctness, but is just an optimization.
         let mut last_refresh_guard = self.last_refresh.lock().unwrap();
         match *last_refresh_guard {
-            Some(last_refresh) if last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
+            Some(last_refresh) if !force && last_refresh.elapsed() < MAX_REFRESH_INTERVAL => {
                 return Ok(false)
             }
             _ => (),
-- 
2.43.0


From c151dd577048af545749fd11343ef15849116288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 13/27] fix: list packs again if one is removed while opening
 it

Repacking writes a new pack and then deletes those it replaces. A read
that listed the packs before and opened them after that failed.
---
 src/object/database/packed.rs | 60 +++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/src/object/database/packed.rs b/src/object/database/packed.rs
index 5ad9f86..f34c472 100644
--- a/src/object/database/packed.rs
+++ b/src/object/database/packed.rs
@@ -2,7 +2,9 @@ mod delta;
 mod index;
 mod pack;
 
+use std::collections::BTreeSet;
 use std::io;
+use std::mem;
 use std::path::{Path, PathBuf};
 use std::sync::{Arc, Mutex};
 use std::time::{Duration, Instant};
@@ -148,24 +150,38 @@ impl PackedObjectDatabase {
             _ => (),
         }
 
-        let entries = match fs_err::read_dir(&self.path) {
-            Ok(entries) => entries,
-            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(true),
-            Err(err) => return Err(err.into()),
-        };
-
-        let mut error = None;
-        for entry in entries {
-            let path = entry?.path();
-            if path.extension() == Some("idx".as_ref()) {
-                if let Err(err) = self
-                    .packs
-                    .entry(path.clone())
-                    .or_try_insert_with(move || Entry::open(path).map(Arc::new))
-                {
-                    error = Some(err);
+        let mut removed = BTreeSet::new();
+        let mut error;
+        loop {
+            let entries = match fs_err::read_dir(&self.path) {
+                Ok(entries) => entries,
+                Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(true),
+                Err(err) => return Err(err.into()),
+            };
+
+            let last_removed = mem::take(&mut removed);
+            error = None;
+            for entry in entries {
+                let path = entry?.path();
+                if path.extension() == Some("idx".as_ref()) {
+                    if let Err(err) = self
+                        .packs
+                        .entry(path.clone())
+                        .or_try_insert_with(|| Entry::open(path.clone()).map(Arc::new))
+                    {
+                        if err.is_not_found() {
+                            removed.insert(path);
+                        }
+                        error = Some(err);
+                    }
                 }
             }
+
+            // If a pack was removed since it was listed, its objects are in
+            // other packs which may not have been listed yet.
+            if removed.is_empty() || removed == last_removed {
+                break;
+            }
         }
 
         if let Some(err) = error {
@@ -177,6 +193,18 @@ impl PackedObjectDatabase {
     }
 }
 
+impl ReadEntryError {
+    fn is_not_found(&self) -> bool {
+        match &self.kind {
+            ReadEntryErrorKind::ReadIndexFile(ReadIndexFileError::Io(err))
+            | ReadEntryErrorKind::ReadPackFile(ReadPackFileError::Io(err)) => {
+                err.kind() == io::ErrorKind::NotFound
+            }
+            _ => false,
+        }
+    }
+}
+
 impl Entry {
     fn open(path: PathBuf) -> Result<Self, ReadEntryError> {
         // The file has an extension so it must have a file name
-- 
2.43.0


From 02f9f57ac65ea1ea45660852b92df517e787d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 14/27] fix: write loose objects to a temporary file first

An object being written, or left behind by a failed or interrupted
write, could be read in an incomplete state and prevented it from being
written again. If an object is already stored, the write now only
succeeds without storing it again if its file time could be updated, as
otherwise it might still be pruned.
---
 src/object/database/loose.rs | 65 +++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 335c8cb..68186ef 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -1,6 +1,8 @@
 use std::fs::OpenOptions;
 use std::io::{self, Write as _};
 use std::path::{Path, PathBuf};
+use std::process;
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use filetime::{set_file_mtime, FileTime};
 use flate2::write::ZlibEncoder;
@@ -11,6 +13,7 @@ use crate::object::database::ObjectReader;
 use crate::object::Id;
 
 const OBJECTS_FOLDER: &str = "objects";
+const MAX_RETRIES: usize = 16;
 
 #[derive(Debug)]
 pub struct LooseObjectDatabase {
@@ -73,26 +76,58 @@ impl LooseObjectDatabase {
         let (dir, file) = object_path_parts(&hex);
 
         let mut path = self.path.join(dir);
-        match fs_err::create_dir(&path) {
-            Err(err) if err.kind() != io::ErrorKind::AlreadyExists => return Err(err.into()),
-            _ => (),
+        path.push(file);
+        if set_file_mtime(&path, FileTime::now()).is_ok() {
+            return Ok(id);
         }
 
-        path.push(file);
-        let file = match OpenOptions::new().create_new(true).write(true).open(&path) {
-            Ok(file) => fs_err::File::from_parts(file, path),
-            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
-                let _ = set_file_mtime(path, FileTime::now());
-                return Ok(id);
-            }
-            Err(err) => return Err(err.into()),
-        };
+        // Write to a temporary file first, so that an incomplete object is never visible.
+        let (file, temp_path) = self.create_temp_file(dir)?;
+        let result = write_compressed(file, bytes)
+            .and_then(|()| fs_err::rename(&temp_path, &path));
+        if let Err(err) = result {
+            let _ = fs_err::remove_file(&temp_path);
+            return Err(err.into());
+        }
 
-        let mut encoder = ZlibEncoder::new(file, Compression::best());
-        encoder.write_all(bytes)?;
-        encoder.finish()?;
         Ok(id)
     }
+
+    fn create_temp_file(&self, dir: &str) -> io::Result<(fs_err::File, PathBuf)> {
+        static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+        let dir = self.path.join(dir);
+        let mut retries = 0;
+        loop {
+            match fs_err::create_dir(&dir) {
+                Err(err) if err.kind() != io::ErrorKind::AlreadyExists => return Err(err),
+                _ => (),
+            }
+
+            let path = dir.join(format!(
+                "tmp_obj_{}_{}",
+                process::id(),
+                COUNTER.fetch_add(1, Ordering::Relaxed)
+            ));
+            match OpenOptions::new().create_new(true).write(true).open(&path) {
+                Ok(file) => return Ok((fs_err::File::from_parts(file, path.clone()), path)),
+                // Left behind by a process that was killed
+                Err(err) if err.kind() == io::ErrorKind::AlreadyExists => (),
+                // The empty directory was removed by another process
+                Err(err) if err.kind() == io::ErrorKind::NotFound && retries < MAX_RETRIES => {
+                    retries += 1
+                }
+                Err(err) => return Err(err),
+            }
+        }
+    }
+}
+
+fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
+    let mut encoder = ZlibEncoder::new(file, Compression::best());
+    encoder.write_all(bytes)?;
+    encoder.finish()?;
+    Ok(())
 }
 
 fn object_path_parts(hex: &str) -> (&str, &str) {
-- 
2.43.0


From 4840fcb5f3f08b11ba0c9fdb1279bc88d25d6342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 15/27] fix: limit the depth of symbolic references

Peeling symbolic references that form a loop overflowed the stack.
---
 src/reference.rs          |  2 ++
 src/reference/symbolic.rs | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/reference.rs b/src/reference.rs
index 7f6b542..6039734 100644
--- a/src/reference.rs
+++ b/src/reference.rs
@@ -36,6 +36,8 @@ pub enum Error {
     ReferenceNameInvalidUtf16,
     #[error("reference was given as invalid Utf8")]
     ReferenceNameInvalidUtf8,
+    #[error("too many levels of symbolic references")]
+    TooDeep,
     #[error("failed to dereference to an object")]
     DereferencingFailed(
         #[source]
diff --git a/src/reference/symbolic.rs b/src/reference/symbolic.rs
index 973f37d..553c3ec 100644
--- a/src/reference/symbolic.rs
+++ b/src/reference/symbolic.rs
@@ -2,9 +2,12 @@ use bstr::{BStr, ByteSlice};
 use std::fmt;
 
 use crate::object::Object;
-use crate::reference::{Direct, Error, ParseError};
+use crate::reference::{Direct, Error, ParseError, ReferenceTarget};
 use crate::repository::Repository;
 
+/// The number of symbolic references that are followed before giving up.
+const MAX_DEPTH: usize = 10;
+
 #[derive(PartialEq)]
 pub struct Symbolic {
     direct_peel: Option<Direct>,
@@ -31,9 +34,17 @@ impl Symbolic {
     }
 
     pub fn peel(&self, repo: &Repository) -> Result<Object, Error> {
+        self.peel_to_depth(repo, MAX_DEPTH)
+    }
+
+    fn peel_to_depth(&self, repo: &Repository, depth: usize) -> Result<Object, Error> {
         match &self.direct_peel {
             Some(direct) => direct.object(repo),
-            None => repo.reference_database().reference(&self.data)?.peel(repo),
+            None => match repo.reference_database().reference(&self.data)?.target() {
+                ReferenceTarget::Direct(direct) => direct.object(repo),
+                ReferenceTarget::Symbolic(_) if depth == 0 => Err(Error::TooDeep),
+                ReferenceTarget::Symbolic(symbolic) => symbolic.peel_to_depth(repo, depth - 1),
+            },
         }
     }
 }
-- 
2.43.0


From a67b9cd464ed271cb3298cede34deaa63d5808df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 16/27] fix: keep trailing non-ASCII whitespace in reference
 targets

---
 src/reference/parser.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index 890551e..c81f07e 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -77,7 +77,7 @@ impl<R: Read> Parser<R> {
 
         let peel = match memchr(b' ', line) {
             Some(ch_pos) => {
-                let p = line[..ch_pos].trim_end();
+                let p = trim_end(&line[..ch_pos]);
                 line = &line[(ch_pos + 1)..];
                 Some(p)
             }
@@ -85,8 +85,8 @@ impl<R: Read> Parser<R> {
         };
 
         let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(&line.trim_end(), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(&line.trim_end())?),
+            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(trim_end(line), peel)?),
+            None => ReferenceTarget::Direct(Direct::from_bytes(trim_end(line))?),
         };
 
         Ok(target)
@@ -124,6 +124,11 @@ impl<R: Read> Parser<R> {
     }
 }
 
+// Only ASCII whitespace is removed, since names can end with other whitespace.
+fn trim_end(bytes: &[u8]) -> &[u8] {
+    bytes.trim_end_with(|ch| ch.is_ascii_whitespace())
+}
+
 #[cfg(test)]
 mod tests {
     use super::{ParseError, Parser};
-- 
2.43.0


From 1d26f1fe5bc9846158b055d05d5b01f28a062266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 17/27] fix: don't drop leading digits and other bytes from
 signatures

The padding characters included those up to 0x32 instead of 32, and
names or emails that aren't valid UTF-8 were cut or rejected.
---
 src/object/signature.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object/signature.rs b/src/object/signature.rs
index 9341563..d37ebdf 100644
--- a/src/object/signature.rs
+++ b/src/object/signature.rs
@@ -22,11 +22,11 @@ pub struct ParseSignatureError;
 
 impl<'a> Signature<'a> {
     fn regex() -> &'static Regex {
-        const PADDING_CHARS: &str = "[\x00-\x32.,:;<>\"\\\\']*";
+        const PADDING_CHARS: &str = "[\x00-\x20.,:;<>\"\\\\']*";
 
         static REGEX: Lazy<Regex> = Lazy::new(|| {
             Regex::new(&format!(
-                r"{pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
+                r"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\d+)(?: ([+\-]\d+))?)?",
                 pad = PADDING_CHARS
             ))
             .unwrap()
-- 
2.43.0


From 38af46d8e4cd856ff2ef6638722f6a67f338ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:52 +0000
Subject: [PATCH 18/27] fix: report that no repository was found when opening a
 file

---
 src/repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/repository.rs b/src/repository.rs
index 5495ef1..fd9f239 100644
--- a/src/repository.rs
+++ b/src/repository.rs
@@ -40,7 +40,10 @@ impl Repository {
         match fs_err::metadata(&dotgit) {
             Ok(metadata) if metadata.is_dir() => (),
             Ok(_) => return Err(OpenError::NotFound(path)),
-            Err(err) if err.kind() == io::ErrorKind::NotFound => {
+            Err(err)
+                if err.kind() == io::ErrorKind::NotFound
+                    || err.kind() == io::ErrorKind::NotADirectory =>
+            {
                 return Err(OpenError::NotFound(path))
             }
             Err(err) => return Err(OpenError::from(err)),
-- 
2.43.0


From 723dc91399d01551547a1baeb5837b6396e15c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 19/27] fix: report errors when listing references, but not
 missing files

Errors reading a directory silently left out references, while a
directory that doesn't exist or a reference being deleted at the same
time made the listing fail.
---
 src/reference/database.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 8de82dd..601bf2c 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -100,14 +100,21 @@ impl ReferenceDatabase {
     fn get_file_paths_from_dir(&self, path: &Path) -> Vec<Result<PathBuf, Error>> {
         match fs::read_dir(path) {
             Ok(files) => files
-                .filter(|f| f.is_ok())
-                .map(|f| f.unwrap())
-                .flat_map(|f| match f.file_type().map(|ft| ft.is_dir()) {
-                    Ok(true) => self.get_file_paths_from_dir(&f.path()),
-                    Ok(false) => vec![f.path()].into_iter().map(Ok).collect(),
+                .flat_map(|f| match f.and_then(|f| Ok((f.path(), f.file_type()?))) {
+                    Ok((path, ft)) if ft.is_dir() => self.get_file_paths_from_dir(&path),
+                    Ok((path, _)) => vec![path].into_iter().map(Ok).collect(),
+                    // The file was deleted since it was listed
+                    Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
                     Err(error) => vec![Err(Error::Io(error))],
                 })
                 .collect(),
+            // The directory doesn't exist, or was deleted since it was listed
+            Err(error)
+                if error.kind() == io::ErrorKind::NotFound
+                    || error.kind() == io::ErrorKind::NotADirectory =>
+            {
+                vec![]
+            }
             Err(error) => vec![Err(Error::Io(error))],
         }
     }
-- 
2.43.0


From a0bfbea8bcfce5f4e56145943ab7b3f4286e84a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 20/27] fix: don't list lock files as references

---
 src/reference/database.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 601bf2c..a8a33d6 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -102,6 +102,7 @@ impl ReferenceDatabase {
             Ok(files) => files
                 .flat_map(|f| match f.and_then(|f| Ok((f.path(), f.file_type()?))) {
                     Ok((path, ft)) if ft.is_dir() => self.get_file_paths_from_dir(&path),
+                    Ok((path, _)) if path.extension() == Some("lock".as_ref()) => vec![],
                     Ok((path, _)) => vec![path].into_iter().map(Ok).collect(),
                     // The file was deleted since it was listed
                     Err(error) if error.kind() == io::ErrorKind::NotFound => vec![],
-- 
2.43.0


From 493c3bba36e0ea3a13bbf2c1818ef3eab78976fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 21/27] fix: only replace backslashes in reference names on
 windows

They are ordinary characters on other systems.
---
 src/reference/database.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index a8a33d6..7644480 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -126,7 +126,7 @@ impl ReferenceDatabase {
                 bytes
                     .iter()
                     .map(|b| match b {
-                        b'\\' => b'/',
+                        b'\\' if cfg!(windows) => b'/',
                         _ => *b,
                     })
                     .collect()
-- 
2.43.0


From c7f0e784f32b92fcb4394e3b85862d02e2727d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:26 +0000
Subject: [PATCH 22/27] fix: report references as not found where no reference
 can be

Names leading out of the git directory opened files there, and names of
directories or below another reference gave an io error.
---
 src/reference/database.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/reference/database.rs b/src/reference/database.rs
index 7644480..cb38a34 100644
--- a/src/reference/database.rs
+++ b/src/reference/database.rs
@@ -1,7 +1,7 @@
 use std::fs::{self};
 use std::io;
 use std::iter::FromIterator;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 
 #[cfg(unix)]
 use std::ffi::OsStr;
@@ -73,9 +73,21 @@ impl ReferenceDatabase {
     }
 
     pub fn read_reference_file(&self, name: &[u8]) -> Result<impl io::Read, Error> {
-        match fs_err::File::open(self.path.join(ReferenceDatabase::bytes_to_path(name)?)) {
+        let name = ReferenceDatabase::bytes_to_path(name)?;
+        // Don't follow names out of the repository
+        if !name.components().all(|c| matches!(c, Component::Normal(_))) {
+            return Err(Error::ReferenceNotFound);
+        }
+
+        match fs_err::File::open(self.path.join(name)) {
+            Ok(file) if file.metadata()?.is_dir() => Err(Error::ReferenceNotFound),
             Ok(file) => Ok(file),
-            Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),
+            Err(err)
+                if err.kind() == io::ErrorKind::NotFound
+                    || err.kind() == io::ErrorKind::NotADirectory =>
+            {
+                Err(Error::ReferenceNotFound)
+            }
             Err(err) => Err(err.into()),
         }
     }
-- 
2.43.0


From bcae05103d4a5381a0ecdef14b8c53d7f22e24a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 23/27] fix: check that an existing object was not removed
 while renewing its age

---
 src/object/database/loose.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 68186ef..7411d7f 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -77,7 +77,8 @@ impl LooseObjectDatabase {
 
         let mut path = self.path.join(dir);
         path.push(file);
-        if set_file_mtime(&path, FileTime::now()).is_ok() {
+        // Check that the object wasn't removed by a concurrent prune before its age was renewed.
+        if set_file_mtime(&path, FileTime::now()).is_ok() && fs_err::metadata(&path).is_ok() {
             return Ok(id);
         }
 
-- 
2.43.0


From 5a8dd035a833e12d05ed240fc5c019e1569040a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:58 +0000
Subject: [PATCH 24/27] fix: read symbolic references to names without a slash

---
 src/reference/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/reference/parser.rs b/src/reference/parser.rs
index c81f07e..15e8559 100644
--- a/src/reference/parser.rs
+++ b/src/reference/parser.rs
@@ -71,7 +71,8 @@ impl<R: Read> Parser<R> {
 
         let mut line = &self.buffer[range];
 
-        if line.starts_with(SYMBOLIC_PREFIX) {
+        let has_prefix = line.starts_with(SYMBOLIC_PREFIX);
+        if has_prefix {
             line = &line[SYMBOLIC_PREFIX.len()..];
         }
 
@@ -84,9 +85,11 @@ impl<R: Read> Parser<R> {
             None => None,
         };
 
-        let target = match memchr(b'/', line) {
-            Some(_) => ReferenceTarget::Symbolic(Symbolic::from_bytes(trim_end(line), peel)?),
-            None => ReferenceTarget::Direct(Direct::from_bytes(trim_end(line))?),
+        // The name of a reference like HEAD doesn't have a slash
+        let target = if has_prefix || memchr(b'/', line).is_some() {
+            ReferenceTarget::Symbolic(Symbolic::from_bytes(trim_end(line), peel)?)
+        } else {
+            ReferenceTarget::Direct(Direct::from_bytes(trim_end(line))?)
         };
 
         Ok(target)
-- 
2.43.0


From 2ddf0e697d8671d658abe93d5f352614c8a451c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 25/27] fix: retry interrupted writes when finishing an object

---
 src/object/database/loose.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/database/loose.rs b/src/object/database/loose.rs
index 7411d7f..92e20e7 100644
--- a/src/object/database/loose.rs
+++ b/src/object/database/loose.rs
@@ -127,8 +127,13 @@ impl LooseObjectDatabase {
 fn write_compressed(file: fs_err::File, bytes: &[u8]) -> io::Result<()> {
     let mut encoder = ZlibEncoder::new(file, Compression::best());
     encoder.write_all(bytes)?;
-    encoder.finish()?;
-    Ok(())
+    // Unlike `write_all`, this doesn't retry interrupted writes
+    loop {
+        match encoder.try_finish() {
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => (),
+            result => return result,
+        }
+    }
 }
 
 fn object_path_parts(hex: &str) -> (&str, &str) {
-- 
2.43.0


From 2101ce8a47253c0c44a816d57dde2c5f101d1091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:13 +0000
Subject: [PATCH 26/27] fix: find an object unpacked while it is being looked
 up

---
 src/object/database.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/object/database.rs b/src/object/database.rs
index 9715fb9..bb63af3 100644
--- a/src/object/database.rs
+++ b/src/object/database.rs
@@ -71,9 +71,14 @@ impl ObjectDatabase {
         // object may have just been packed, try again
         match self.packed.read_object(&ShortId::from(id), true) {
             Ok(reader) => Ok(reader),
-            Err(ReadPackedError::NotFound) => {
-                Err(ReadObjectError::new(id, ReadError::from(loose_error)))
-            }
+            Err(ReadPackedError::NotFound) => match loose_error {
+                // object may have just been unpacked from a pack that wasn't read
+                ReadLooseError::NotFound => self
+                    .loose
+                    .read_object(&id)
+                    .map_err(|err| ReadObjectError::new(id, ReadError::from(err))),
+                err => Err(ReadObjectError::new(id, ReadError::from(err))),
+            },
             Err(err) => Err(ReadObjectError::new(id, ReadError::from(err))),
         }
     }
-- 
2.43.0


From 3996dff4f06793e447b518b721cf8edba6ccba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 27/27] fix: find the message of a tag with additional headers

---
 src/object/tag.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/object/tag.rs b/src/object/tag.rs
index fe47d60..6f20f4c 100644
--- a/src/object/tag.rs
+++ b/src/object/tag.rs
@@ -49,10 +49,13 @@ impl Tag {
 
         let tagger = parser.parse_signature(b"tagger ")?;
 
-        let message = if parser.consume_bytes(b"\n") {
-            Some(parser.pos())
-        } else {
-            None
+        // Consume additional tag headers
+        let message = loop {
+            if parser.consume_bytes(b"\n") {
+                break Some(parser.pos());
+            } else if parser.consume_until(b'\n').is_none() {
+                break None;
+            }
         };
 
         Ok(Tag {
-- 
2.43.0

