From 390faa11bad73d8c316068e75359575bedbab923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 01/10] fix: report a truncated or unreadable blob header size
 instead of ending the iteration

---
 src/blob.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index 92f7328..aaa6251 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -3,7 +3,6 @@
 use crate::block::{HeaderBlock, PrimitiveBlock};
 use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, ErrorKind, Result};
 use crate::proto::fileformat;
-use byteorder::ReadBytesExt;
 use protobuf::Message;
 use std::fs::File;
 use std::io::{BufReader, Read, Seek, SeekFrom};
@@ -186,24 +185,37 @@ impl<R: Read + Send> BlobReader<R> {
         }
     }
 
+    /// Reads the size of the next blob header. Returns `None` if the stream ends before its first
+    /// byte, which is the only regular end of a stream.
+    fn read_header_size(&mut self) -> std::io::Result<Option<u32>> {
+        let mut buf = [0u8; 4];
+        let mut filled = 0;
+        while filled < buf.len() {
+            match self.reader.read(&mut buf[filled..]) {
+                Ok(0) if filled == 0 => return Ok(None),
+                Ok(0) => return Err(std::io::ErrorKind::UnexpectedEof.into()),
+                Ok(n) => filled += n,
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(e) => return Err(e),
+            }
+        }
+        Ok(Some(u32::from_be_bytes(buf)))
+    }
+
     fn read_blob_header(&mut self) -> Option<Result<fileformat::BlobHeader>> {
-        let header_size: u64 = match self.reader.read_u32::<byteorder::BigEndian>() {
-            Ok(n) => {
+        let header_size: u64 = match self.read_header_size() {
+            Ok(Some(n)) => {
                 self.offset = self.offset.map(|x| ByteOffset(x.0 + 4));
                 u64::from(n)
             }
-            Err(e) => {
+            Ok(None) => {
+                self.offset = None;
+                return None;
+            }
+            Err(_) => {
                 self.offset = None;
-                return match e.kind() {
-                    ::std::io::ErrorKind::UnexpectedEof => {
-                        //TODO This also accepts corrupted files in the case of 1-3 available bytes
-                        None
-                    }
-                    _ => {
-                        self.last_blob_ok = false;
-                        Some(Err(new_blob_error(BlobError::InvalidHeaderSize)))
-                    }
-                };
+                self.last_blob_ok = false;
+                return Some(Err(new_blob_error(BlobError::InvalidHeaderSize)));
             }
         };
 
-- 
2.43.0


From 623cbde1588b86ff7d4a30b5093c8b75894c4633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 02/10] fix: report truncated blobs whose remaining bytes
 happen to be a valid message

---
 src/blob.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index aaa6251..a55c915 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -1,7 +1,7 @@
 //! Read and decode blobs
 
 use crate::block::{HeaderBlock, PrimitiveBlock};
-use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, ErrorKind, Result};
+use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, Error, ErrorKind, Result};
 use crate::proto::fileformat;
 use protobuf::Message;
 use std::fs::File;
@@ -236,6 +236,13 @@ impl<R: Read + Send> BlobReader<R> {
             }
         };
 
+        // A prefix of a message can be a valid message itself.
+        if reader.limit() != 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(unexpected_eof("content too short for header")));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
@@ -298,6 +305,13 @@ impl<R: Read + Send> Iterator for BlobReader<R> {
             }
         };
 
+        // A prefix of a message can be a valid message itself.
+        if reader.limit() != 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(unexpected_eof("content too short for block data")));
+        }
+
         self.offset = self
             .offset
             .map(|x| ByteOffset(x.0 + header.datasize() as u64));
@@ -464,6 +478,10 @@ impl BlobReader<BufReader<File>> {
     }
 }
 
+fn unexpected_eof(msg: &'static str) -> Error {
+    std::io::Error::new(std::io::ErrorKind::UnexpectedEof, msg).into()
+}
+
 pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
     if blob.has_raw() {
         let size = blob.raw().len() as u64;
-- 
2.43.0


From 744cb80d8c6d2f9528f7e63b2e5e0ee886009dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 03/10] fix: reject negative blob sizes

---
 src/blob.rs      | 10 ++++++++++
 src/mmap_blob.rs |  7 ++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index a55c915..0b42657 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -243,6 +243,12 @@ impl<R: Read + Send> BlobReader<R> {
             return Some(Err(unexpected_eof("content too short for header")));
         }
 
+        if header.datasize() < 0 {
+            self.offset = None;
+            self.last_blob_ok = false;
+            return Some(Err(new_negative_size_error()));
+        }
+
         self.offset = self.offset.map(|x| ByteOffset(x.0 + header_size));
 
         Some(Ok(header))
@@ -482,6 +488,10 @@ fn unexpected_eof(msg: &'static str) -> Error {
     std::io::Error::new(std::io::ErrorKind::UnexpectedEof, msg).into()
 }
 
+pub(crate) fn new_negative_size_error() -> Error {
+    std::io::Error::new(std::io::ErrorKind::InvalidData, "negative blob size").into()
+}
+
 pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
     if blob.has_raw() {
         let size = blob.raw().len() as u64;
diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index e07c733..152f7f1 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -1,7 +1,7 @@
 //! Iterate over blobs from a memory map
 
 use self::fileformat::BlobHeader;
-use crate::blob::{decode_blob, BlobDecode, BlobType, ByteOffset};
+use crate::blob::{decode_blob, new_negative_size_error, BlobDecode, BlobType, ByteOffset};
 use crate::block::{HeaderBlock, PrimitiveBlock};
 use crate::error::{new_blob_error, new_protobuf_error, BlobError, Result};
 use crate::proto::{fileformat, osmformat};
@@ -219,6 +219,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             }
         };
 
+        if header.datasize() < 0 {
+            self.last_blob_ok = false;
+            return Some(Err(new_negative_size_error()));
+        }
+
         let data_size = header.datasize() as usize;
         let chunk_size = 4 + header_size + data_size;
 
-- 
2.43.0


From 65608a847cdb91cdc77a5208faa601b441bb75ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 04/10] fix: stop iterating over a memory map after an error

---
 src/mmap_blob.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index 152f7f1..a6acf80 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -175,6 +175,7 @@ impl MmapBlobReader<'_> {
     /// ```
     pub fn seek(&mut self, pos: ByteOffset) {
         self.offset = pos.0 as usize;
+        self.last_blob_ok = true;
     }
 }
 
@@ -182,6 +183,11 @@ impl<'a> Iterator for MmapBlobReader<'a> {
     type Item = Result<MmapBlob<'a>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Stop iteration if there was an error.
+        if !self.last_blob_ok {
+            return None;
+        }
+
         let slice = &self.mmap.as_slice()[self.offset..];
 
         match slice.len() {
-- 
2.43.0


From d075d838a6715e6d5de6b8cdf17653a787e3198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 05/10] fix: do not panic after seeking beyond the end of a
 memory map

---
 src/mmap_blob.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mmap_blob.rs b/src/mmap_blob.rs
index a6acf80..74ef5b7 100644
--- a/src/mmap_blob.rs
+++ b/src/mmap_blob.rs
@@ -188,7 +188,8 @@ impl<'a> Iterator for MmapBlobReader<'a> {
             return None;
         }
 
-        let slice = &self.mmap.as_slice()[self.offset..];
+        // There are no blobs beyond the end of the memory map.
+        let slice = self.mmap.as_slice().get(self.offset..)?;
 
         match slice.len() {
             0 => return None,
-- 
2.43.0


From 6ee476d6da574761b5afd53aa4633e2705c59960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 06/10] fix: allow reading blobs after an error by seeking to a
 valid position

---
 src/blob.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/blob.rs b/src/blob.rs
index 0b42657..bab7aad 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -408,6 +408,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(SeekFrom::Start(pos.0)) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(())
             }
             Err(e) => {
@@ -422,6 +423,7 @@ impl<R: Read + Seek + Send> BlobReader<R> {
         match self.reader.seek(pos) {
             Ok(offset) => {
                 self.offset = Some(ByteOffset(offset));
+                self.last_blob_ok = true;
                 Ok(offset)
             }
             Err(e) => {
-- 
2.43.0


From 91a7bf7c1f7c2d85a036744393a6a7b3ff0f365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 07/10] fix: report oversized zlib content instead of silently
 cutting it off

---
 src/blob.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/blob.rs b/src/blob.rs
index bab7aad..e1963bd 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -504,7 +504,15 @@ pub(crate) fn decode_blob<T: Message>(blob: &fileformat::Blob) -> Result<T> {
         }
     } else if blob.has_zlib_data() {
         let mut decoder = ZlibDecoder::new(blob.zlib_data()).take(MAX_BLOB_MESSAGE_SIZE);
-        T::parse_from_reader(&mut decoder).map_err(|e| new_protobuf_error(e, "blob zlib data"))
+        let message = T::parse_from_reader(&mut decoder)
+            .map_err(|e| new_protobuf_error(e, "blob zlib data"))?;
+        // Same limit as for raw data. More content might have been cut off.
+        if decoder.limit() == 0 {
+            return Err(new_blob_error(BlobError::MessageTooBig {
+                size: MAX_BLOB_MESSAGE_SIZE,
+            }));
+        }
+        Ok(message)
     } else {
         Err(new_blob_error(BlobError::Empty))
     }
-- 
2.43.0


From 45f9e647d9944166a21c4fd6c42d8ac51a31ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 08/10] fix: do not keep a partial index after an error

---
 src/indexed.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/indexed.rs b/src/indexed.rs
index 8168326..93d9f93 100644
--- a/src/indexed.rs
+++ b/src/indexed.rs
@@ -151,6 +151,9 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
         // Seek to the beginning of the reader.
         self.reader.seek(ByteOffset(0))?;
 
+        // Only keep a complete index.
+        let mut index = vec![];
+
         while let Some(result) = self.reader.next_header_skip_blob() {
             let (header, offset) = result?;
             // Reader is seekable, so offset should be Some(ByteOffset)
@@ -161,13 +164,15 @@ impl<R: Read + Seek + Send> IndexedReader<R> {
                 BlobType::Unknown(_) => SimpleBlobType::Unknown,
             };
 
-            self.index.push(BlobInfo {
+            index.push(BlobInfo {
                 offset,
                 blob_type,
                 id_ranges: None,
             });
         }
 
+        self.index = index;
+
         Ok(())
     }
 
-- 
2.43.0


From 2be8c2e64015f622c10cd3e7df78ae0df328bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 09/10] fix: do not overflow when decoding deltas, coordinates
 and timestamps

---
 src/blob.rs     |  4 +++-
 src/block.rs    |  5 +++++
 src/dense.rs    | 23 ++++++++++++-----------
 src/elements.rs | 24 ++++++++++++++----------
 4 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/blob.rs b/src/blob.rs
index e1963bd..58d4c0a 100644
--- a/src/blob.rs
+++ b/src/blob.rs
@@ -1,7 +1,9 @@
 //! Read and decode blobs
 
 use crate::block::{HeaderBlock, PrimitiveBlock};
-use crate::error::{new_blob_error, new_error, new_protobuf_error, BlobError, Error, ErrorKind, Result};
+use crate::error::{
+    new_blob_error, new_error, new_protobuf_error, BlobError, Error, ErrorKind, Result,
+};
 use crate::proto::fileformat;
 use protobuf::Message;
 use std::fs::File;
diff --git a/src/block.rs b/src/block.rs
index c43231c..f5cfd7e 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -423,6 +423,11 @@ impl<'a> Iterator for GroupRelationIter<'a> {
 
 impl ExactSizeIterator for GroupRelationIter<'_> {}
 
+/// Converts a stored coordinate to nanodegrees. Invalid data must not cause an arithmetic overflow.
+pub(crate) fn scale_coordinate(block: &osmformat::PrimitiveBlock, offset: i64, value: i64) -> i64 {
+    offset.wrapping_add(i64::from(block.granularity()).wrapping_mul(value))
+}
+
 pub(crate) fn str_from_stringtable(
     block: &osmformat::PrimitiveBlock,
     index: usize,
diff --git a/src/dense.rs b/src/dense.rs
index 577e327..3c25665 100644
--- a/src/dense.rs
+++ b/src/dense.rs
@@ -1,6 +1,6 @@
 //! Iterate over the dense nodes in a `PrimitiveGroup`
 
-use crate::block::{get_stringtable_key_value, str_from_stringtable};
+use crate::block::{get_stringtable_key_value, scale_coordinate, str_from_stringtable};
 use crate::error::Result;
 use crate::proto::osmformat;
 use std;
@@ -39,7 +39,7 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.lat
+        scale_coordinate(self.block, self.block.lat_offset(), self.lat)
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -54,7 +54,7 @@ impl<'a> DenseNode<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.lon
+        scale_coordinate(self.block, self.block.lon_offset(), self.lon)
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -146,9 +146,9 @@ impl<'a> Iterator for DenseNodeIter<'a> {
             self.info_iter.as_mut().and_then(|iter| iter.next()),
         ) {
             (Some(did), Some(dlat), Some(dlon), info) => {
-                self.cid += *did;
-                self.clat += *dlat;
-                self.clon += *dlon;
+                self.cid = self.cid.wrapping_add(*did);
+                self.clat = self.clat.wrapping_add(*dlat);
+                self.clon = self.clon.wrapping_add(*dlon);
 
                 let start_index = self.keys_vals_index;
                 let mut end_index = start_index;
@@ -223,7 +223,8 @@ impl<'a> DenseNodeInfo<'a> {
 
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> i64 {
-        self.timestamp * i64::from(self.block.date_granularity())
+        self.timestamp
+            .wrapping_mul(i64::from(self.block.date_granularity()))
     }
 
     /// Returns the visibility status of an element. This is only relevant if the PBF file contains
@@ -296,10 +297,10 @@ impl<'a> Iterator for DenseNodeInfoIter<'a> {
                 Some(duser_sid),
                 visible_opt,
             ) => {
-                self.ctimestamp += *dtimestamp;
-                self.cchangeset += *dchangeset;
-                self.cuid += *duid;
-                self.cuser_sid += *duser_sid;
+                self.ctimestamp = self.ctimestamp.wrapping_add(*dtimestamp);
+                self.cchangeset = self.cchangeset.wrapping_add(*dchangeset);
+                self.cuid = self.cuid.wrapping_add(*duid);
+                self.cuser_sid = self.cuser_sid.wrapping_add(*duser_sid);
                 Some(DenseNodeInfo {
                     block: self.block,
                     version,
diff --git a/src/elements.rs b/src/elements.rs
index 9d52e10..7789f55 100644
--- a/src/elements.rs
+++ b/src/elements.rs
@@ -1,6 +1,6 @@
 //! Nodes, ways and relations
 
-use crate::block::{get_stringtable_key_value, str_from_stringtable};
+use crate::block::{get_stringtable_key_value, scale_coordinate, str_from_stringtable};
 use crate::dense::DenseNode;
 use crate::error::Result;
 use crate::proto::osmformat;
@@ -87,7 +87,7 @@ impl<'a> Node<'a> {
 
     /// Returns the latitude coordinate in nanodegrees (10⁻⁹).
     pub fn nano_lat(&self) -> i64 {
-        self.block.lat_offset() + i64::from(self.block.granularity()) * self.osmnode.lat()
+        scale_coordinate(self.block, self.block.lat_offset(), self.osmnode.lat())
     }
 
     /// Returns the latitude coordinate in decimicrodegrees (10⁻⁷).
@@ -102,7 +102,7 @@ impl<'a> Node<'a> {
 
     /// Returns the longitude in nanodegrees (10⁻⁹).
     pub fn nano_lon(&self) -> i64 {
-        self.block.lon_offset() + i64::from(self.block.granularity()) * self.osmnode.lon()
+        scale_coordinate(self.block, self.block.lon_offset(), self.osmnode.lon())
     }
 
     /// Returns the longitude coordinate in decimicrodegrees (10⁻⁷).
@@ -335,7 +335,7 @@ impl Iterator for WayRefIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match self.deltas.next() {
             Some(&d) => {
-                self.current += d;
+                self.current = self.current.wrapping_add(d);
                 Some(self.current)
             }
             None => None,
@@ -404,11 +404,11 @@ impl Iterator for WayNodeLocationsIter<'_> {
     fn next(&mut self) -> Option<Self::Item> {
         match (self.dlats.next(), self.dlons.next()) {
             (Some(&dlat), Some(&dlon)) => {
-                self.clat += dlat;
-                self.clon += dlon;
+                self.clat = self.clat.wrapping_add(dlat);
+                self.clon = self.clon.wrapping_add(dlon);
                 Some(WayNodeLocation {
-                    lat: self.block.lat_offset() + i64::from(self.block.granularity()) * self.clat,
-                    lon: self.block.lon_offset() + i64::from(self.block.granularity()) * self.clon,
+                    lat: scale_coordinate(self.block, self.block.lat_offset(), self.clat),
+                    lon: scale_coordinate(self.block, self.block.lon_offset(), self.clon),
                 })
             }
             _ => None,
@@ -491,7 +491,7 @@ impl<'a> Iterator for RelMemberIter<'a> {
             self.member_types.next(),
         ) {
             (Some(role_sid), Some(mem_id_delta), Some(member_type)) => {
-                self.current_member_id += *mem_id_delta;
+                self.current_member_id = self.current_member_id.wrapping_add(*mem_id_delta);
                 Some(RelMember {
                     block: self.block,
                     role_sid: *role_sid,
@@ -583,7 +583,11 @@ impl<'a> Info<'a> {
     /// Returns the time stamp in milliseconds since the epoch.
     pub fn milli_timestamp(&self) -> Option<i64> {
         if self.info.has_timestamp() {
-            Some(self.info.timestamp() * i64::from(self.block.date_granularity()))
+            Some(
+                self.info
+                    .timestamp()
+                    .wrapping_mul(i64::from(self.block.date_granularity())),
+            )
         } else {
             None
         }
-- 
2.43.0


From 14ee1a1a14753012b224f5b795915ad9e3fbd818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:10 +0000
Subject: [PATCH 10/10] fix: make the cause of an error reachable through
 Error::source

The deprecated cause() was implemented instead, so the standard error chain ended at
osmpbf::Error. cause() delegates to source() by default.
---
 src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 9ec3182..fec6dfd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -132,7 +132,7 @@ impl StdError for Error {
         }
     }
 
-    fn cause(&self) -> Option<&dyn StdError> {
+    fn source(&self) -> Option<&(dyn StdError + 'static)> {
         match *self.0 {
             ErrorKind::Io(ref err) => Some(err),
             ErrorKind::Protobuf { ref err, .. } => Some(err),
-- 
2.43.0

