From a7408fa5fc12c37bca07fdd37e1c7c8ffda70c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 01/13] fix: bound each read_from buffer by its capacity

BytesMut::remaining_mut reports the room up to usize::MAX, so the fill
loop never ended before EOF. The complete source was accumulated in one
RAM buffer before the max_body and max_body_ram limits were checked.
---
 body-image/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index ea14e3b..b9b9b95 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -649,7 +649,9 @@ impl BodyImage {
                 }
                 unsafe { buf.advance_mut(len); }
 
-                if buf.remaining_mut() < 1024 {
+                // Not `remaining_mut`, which for `BytesMut` isn't limited to
+                // the current capacity.
+                if buf.capacity() - buf.len() < 1024 {
                     break 'fill;
                 }
             }
-- 
2.43.0


From 3d96396cc3f3845641721c4796077034ccb3ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 02/13] fix: count bytes already written back towards max_body

When read_from switches from RAM to a file, the file loop restarted its
size count from zero, allowing a body longer than max_body.
---
 body-image/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index b9b9b95..dd56879 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -742,7 +742,7 @@ fn read_to_body_fs<R>(r: &mut R, mut body: BodySink, tune: &Tunables)
 {
     assert!(!body.is_ram());
 
-    let mut size: u64 = 0;
+    let mut size: u64 = body.len();
     let mut buf = BytesMut::with_capacity(tune.buffer_size_fs());
     loop {
         let b = unsafe { &mut *(
-- 
2.43.0


From 60b84fdb9f19c76ef97ab22eb8b28bad5ae6c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 03/13] fix: memory map only the length of the body image

An image over the first part of a file mapped the complete file, so that
readers and streams of the map disagreed with BodyImage::len.
---
 body-image/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index dd56879..c881aba 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -60,7 +60,7 @@ use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")]
 use {
-    memmap::Mmap,
+    memmap::{Mmap, MmapOptions},
     olio::mem::{MemAdvice, MemHandle},
     _mem_handle_ext::MemHandleExt,
 };
@@ -522,7 +522,14 @@ impl BodyImage {
         let map = match self.state {
             ImageState::FsRead(ref file) => {
                 assert!(self.len > 0);
-                unsafe { Mmap::map(&file) }?
+                if file.metadata()?.len() < self.len {
+                    return Err(io::Error::from(
+                        ErrorKind::UnexpectedEof
+                    ).into());
+                }
+                unsafe {
+                    MmapOptions::new().len(self.len as usize).map(file)
+                }?
             }
             ImageState::FsReadSlice(ref rslice) => {
                 rslice.mem_map()?
-- 
2.43.0


From 150f21504616133baf39aebb96e39b78686f7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 04/13] fix: limit write_to of a file image to its length

ReadPos isn't limited to the length it is given, so write_to copied the
remainder of a longer file while reporting BodyImage::len.
---
 body-image/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index c881aba..1d702ba 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -53,7 +53,7 @@ use bytes::{Bytes, BytesMut, BufMut};
 
 use tao_log::{debug, warn};
 use olio::io::GatheringReader;
-use olio::fs::rc::{ReadPos, ReadSlice};
+use olio::fs::rc::ReadSlice;
 use tempfile::tempfile_in;
 
 #[cfg(feature = "mmap")] #[doc(hidden)] pub mod _mem_handle_ext;
@@ -707,8 +707,8 @@ impl BodyImage {
                 mh.tmp_advise(MemAdvice::Sequential, || out.write_all(mh))?;
             }
             ImageState::FsRead(ref f) => {
-                let mut rp = ReadPos::new(f.clone(), self.len);
-                io::copy(&mut rp, out)?;
+                let mut rs = ReadSlice::new(f.clone(), 0, self.len);
+                io::copy(&mut rs, out)?;
             }
             ImageState::FsReadSlice(ref rslice) => {
                 let mut rs = rslice.clone();
-- 
2.43.0


From 74b4823eca1934472c44d3ff6d6bb73ff479b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 05/13] fix: return errors for inconsistent lengths in record
 heads

Block lengths of one or two bytes, a header block which ends early, or a
total length less than the sum of blocks caused a panic on read.
---
 barc/src/lib.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index f4eb74f..b773183 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -867,7 +867,9 @@ impl BarcReader {
         }?;
         let res_headers = read_headers(fin, WITH_CRLF, rhead.res_h)?;
 
-        let body_len = rhead.len - (fin.tell() - start - (V2_HEAD_SIZE as u64));
+        let body_len = rhead.len
+            .checked_sub(fin.tell() - start - (V2_HEAD_SIZE as u64))
+            .ok_or(BarcError::ReadInvalidRecHead)?;
 
         let res_body = if body_len <= tune.max_body_ram() {
             read_body_ram(fin, WITH_CRLF, body_len as usize)
@@ -1016,7 +1018,9 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(http::HeaderMap::with_capacity(0));
     }
 
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let tlen = if with_crlf { len } else { len + 2 };
     let mut buf = BytesMut::with_capacity(tlen);
@@ -1050,7 +1054,11 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
             let mut hmap = http::HeaderMap::with_capacity(heads.len());
-            assert_eq!(size, buf.len());
+            if size != buf.len() {
+                return Err(BarcError::InvalidHeader(
+                    "header block ends before its length".into()
+                ));
+            }
             for h in heads {
                 let name = h.name.parse::<HeaderName>()
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
@@ -1078,7 +1086,9 @@ fn read_body_ram<R>(rin: &mut R, with_crlf: bool, len: usize)
         return Ok(BodyImage::empty());
     }
 
-    assert!(!with_crlf || len > 2);
+    if with_crlf && len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
 
     let mut buf = BytesMut::with_capacity(len);
     unsafe {
@@ -1148,7 +1158,9 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
 // Return `BodyImage::FsReadSlice` for an uncompressed body in file, at the
 // current offset of `ReadPos`, for the given length.
 fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
-    assert!(len > 2);
+    if len <= 2 {
+        return Err(BarcError::ReadInvalidRecHead);
+    }
     let offset = rp.tell();
 
     // Seek past the body, as if read.
-- 
2.43.0


From 1b47d7a229449315a3674cf335d76cb30f09042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 06/13] fix: report truncated records as errors

A plain body left in the file as a slice, a compressed body read to a
file, and a compressed payload could all extend past the end of the
archive without an error. The slice would later read short, or fault
when memory mapped.
---
 barc/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index b773183..578251e 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -853,7 +853,10 @@ impl BarcReader {
             let rec = read_compressed(
                 fin.subslice(fin.tell(), end), &rhead, tune
             )?;
-            fin.seek(SeekFrom::Start(end))?;
+            // Seek to end by reading the last byte, which fails if truncated.
+            fin.seek(SeekFrom::Start(end - 1))?;
+            let mut last = [0u8; 1];
+            fin.read_exact(&mut last)?;
             return Ok(Some(rec))
         }
 
@@ -1138,7 +1141,7 @@ fn read_body_fs<R>(rin: &mut R, len: u64, tune: &Tunables)
             }
         };
         if rlen == 0 {
-            break;
+            return Err(io::Error::from(ErrorKind::UnexpectedEof).into());
         }
         unsafe { buf.advance_mut(rlen); }
         debug!("Write (Fs) buffer len {}", rlen);
@@ -1163,8 +1166,11 @@ fn slice_body(rp: &mut ReadPos, len: u64) -> Result<BodyImage, BarcError> {
     }
     let offset = rp.tell();
 
-    // Seek past the body, as if read.
-    rp.seek(SeekFrom::Current(len as i64))?;
+    // Seek past the body and read the CRLF, as if read. This fails if the body
+    // is truncated.
+    rp.seek(SeekFrom::Current((len - 2) as i64))?;
+    let mut crlf = [0u8; 2];
+    rp.read_exact(&mut crlf)?;
 
     let rslice = rp.subslice(offset, offset + len - 2); // - CRLF
 
-- 
2.43.0


From fdd7d89244e3f87edb4790a7644e854da9eb740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 07/13] fix: read back header blocks of more than 128 headers

The writer doesn't limit the number of headers, but such records could
not be read.
---
 barc/src/lib.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 578251e..32c7944 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -593,6 +593,9 @@ impl Default for RecordType {
 
 const CRLF: &[u8] = b"\r\n";
 
+// Maximum distinct names in a HeaderMap, which panics beyond this.
+const MAX_HEADER_NAMES: usize = 24_576;
+
 const WITH_CRLF: bool = true;
 const NO_CRLF:   bool = false;
 
@@ -1047,16 +1050,16 @@ fn read_headers<R>(rin: &mut R, with_crlf: bool, len: usize)
 
 // Parse header byte slice to HeaderMap.
 fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
-    let mut headbuf = [httparse::EMPTY_HEADER; 128];
-
-    // FIXME: httparse will return TooManyHeaders if headbuf isn't
-    // large enough. Hyper 0.11.15 allocates 100, so 128 is room for
-    // _even more_ (sigh). Might be better to just replace this with
-    // our own parser, as the grammar isn't particularly complex.
+    // httparse will return TooManyHeaders if headbuf isn't large enough, so
+    // make room for one header per line.
+    let lines = buf.iter().filter(|b| **b == b'\n').count();
+    let mut headbuf = vec![httparse::EMPTY_HEADER; lines];
 
     match httparse::parse_headers(buf, &mut headbuf) {
         Ok(httparse::Status::Complete((size, heads))) => {
-            let mut hmap = http::HeaderMap::with_capacity(heads.len());
+            let mut hmap = http::HeaderMap::with_capacity(
+                cmp::min(heads.len(), 128)
+            );
             if size != buf.len() {
                 return Err(BarcError::InvalidHeader(
                     "header block ends before its length".into()
@@ -1067,6 +1070,13 @@ fn parse_headers(buf: &[u8]) -> Result<http::HeaderMap, BarcError> {
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
                 let value = HeaderValue::from_bytes(h.value)
                     .map_err(|e| BarcError::InvalidHeader(e.into()))?;
+                if hmap.keys_len() >= MAX_HEADER_NAMES
+                    && !hmap.contains_key(&name)
+                {
+                    return Err(BarcError::InvalidHeader(
+                        Box::new(httparse::Error::TooManyHeaders)
+                    ));
+                }
                 hmap.append(name, value);
             }
             Ok(hmap)
-- 
2.43.0


From 35cfc0445540105594eedd2c20429e976a454b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 08/13] fix: accept all encodings and versions on Record to
 Dialog conversion

The identity encoding is added by every successful response decode, so
decoded dialogs could be recorded but not converted back.
---
 barc/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 32c7944..4021402 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -491,6 +491,7 @@ impl TryFrom<Record> for Dialog {
                 b"HTTP/1.0" => http::Version::HTTP_10,
                 b"HTTP/1.1" => http::Version::HTTP_11,
                 b"HTTP/2.0" => http::Version::HTTP_2,
+                b"HTTP/3.0" => http::Version::HTTP_3,
                 _ => {
                     return Err(DialogConvertError::InvalidVersion(vb.to_vec()));
                 }
@@ -521,6 +522,8 @@ impl TryFrom<Record> for Dialog {
                         "deflate" => Encoding::Deflate,
                         "gzip"    => Encoding::Gzip,
                         "br"      => Encoding::Brotli,
+                        "compress" => Encoding::Compress,
+                        "identity" => Encoding::Identity,
                         _ => {
                             return Err(DialogConvertError::InvalidResDecoded(
                                 enc.to_string()
-- 
2.43.0


From 57c287eac4b9aed490102b6717494ca00b08a705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 09/13] fix: count only selected records in cat and cp

Records skipped by --index were counted towards --count, so e.g. index 2
with count 1 gave no records. The cat separator also reported the offset
of the first skipped record.
---
 barc-cli/src/main.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/barc-cli/src/main.rs b/barc-cli/src/main.rs
index 3928679..6ffdfd8 100644
--- a/barc-cli/src/main.rs
+++ b/barc-cli/src/main.rs
@@ -187,6 +187,15 @@ enum StartPos {
     Offset(u64),
     Index(usize)
 }
+impl StartPos {
+    // Return the count of records to skip.
+    fn index(&self) -> usize {
+        match *self {
+            StartPos::Offset(_) => 0,
+            StartPos::Index(i) => i
+        }
+    }
+}
 impl Default for StartPos {
     fn default() -> StartPos { StartPos::Index(0) }
 }
@@ -227,14 +236,16 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
     }
     let fout = &mut io::stdout();
     let nl = true;
+    let mut skip = start.index();
     let mut i = 0;
-    let mut offset = reader.offset();
-    while let Some(rec) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
-        }
+    while i < count {
+        let offset = reader.offset();
+        let rec = match reader.read(&tune)? {
+            Some(rec) => rec,
+            None => break
+        };
+        if skip > 0 { skip -= 1; continue; }
         i += 1;
-        if i > count { break; }
         println!("====== file {:-<38} offset {:#012x} ======",
                  barc_path, offset);
         if parts.meta     { write_headers(fout, nl, rec.meta())?; }
@@ -242,8 +253,6 @@ fn cat(barc_path: &str, start: &StartPos, count: usize, parts: &Parts)
         if parts.req_body { write_body   (fout, nl, rec.req_body())?; }
         if parts.res_head { write_headers(fout, nl, rec.res_headers())?; }
         if parts.res_body { write_body   (fout, nl, rec.res_body())?; }
-
-        offset = reader.offset();
     }
 
     Ok(())
@@ -270,13 +279,15 @@ fn cp(
     let bfout = BarcFile::new(barc_out);
     let mut writer = bfout.writer()?;
 
+    let mut skip = start.index();
     let mut i = 0;
-    while let Some(record) = reader.read(&tune)? {
-        if let StartPos::Index(s) = *start {
-            if i < s { i += 1; continue; }
-        }
+    while i < count {
+        let record = match reader.read(&tune)? {
+            Some(rec) => rec,
+            None => break
+        };
+        if skip > 0 { skip -= 1; continue; }
         i += 1;
-        if i > count { break; }
         writer.write(&record, strategy)?;
     }
 
-- 
2.43.0


From 2ba61d630ea3d05346ee69dc8c09e66c6f00e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:08 +0000
Subject: [PATCH 10/13] fix: report errors writing the end of a brotli stream

The brotli writer ignores errors when it is dropped, and its flush only
writes a first part of the buffered output. A record could be completed
with a truncated payload when the file system was full.
---
 barc/src/compress.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/barc/src/compress.rs b/barc/src/compress.rs
index 2fb6f08..8780c45 100644
--- a/barc/src/compress.rs
+++ b/barc/src/compress.rs
@@ -376,7 +376,31 @@ enum Encoder<'a> {
     Plain(&'a File),
     Gzip(Box<GzEncoder<&'a File>>),
     #[cfg(feature = "brotli")]
-    Brotli(Box<brotli::CompressorWriter<&'a File>>)
+    Brotli(Box<brotli::CompressorWriter<ErrorLatch<'a>>>)
+}
+
+// File writer which retains any write error, since the brotli
+// `CompressorWriter` doesn't return errors on writing the end of the stream.
+#[cfg(feature = "brotli")]
+struct ErrorLatch<'a> {
+    file: &'a File,
+    error: Option<io::Error>,
+}
+
+#[cfg(feature = "brotli")]
+impl<'a> Write for ErrorLatch<'a> {
+    fn write(&mut self, buf: &[u8]) -> Result<usize, io::Error> {
+        self.file.write(buf).map_err(|e| {
+            if e.kind() != io::ErrorKind::Interrupted {
+                self.error = Some(e.kind().into());
+            }
+            e
+        })
+    }
+
+    fn flush(&mut self) -> Result<(), io::Error> {
+        self.file.flush()
+    }
 }
 
 impl<'a> EncodeWrapper<'a> {
@@ -404,7 +428,7 @@ impl<'a> EncodeWrapper<'a> {
     {
         EncodeWrapper(Encoder::Brotli(Box::new(
             brotli::CompressorWriter::new(
-                file,
+                ErrorLatch { file, error: None },
                 4096, //FIXME: tune?
                 compression_level,
                 21)
@@ -432,8 +456,12 @@ impl<'a> EncodeWrapper<'a> {
                 gze.finish()?.flush()?;
             }
             #[cfg(feature = "brotli")]
-            Encoder::Brotli(mut bcw) => {
-                bcw.flush()?;
+            Encoder::Brotli(bcw) => {
+                let mut latch = bcw.into_inner();
+                if let Some(e) = latch.error.take() {
+                    return Err(e.into());
+                }
+                latch.flush()?;
             }
         }
         Ok(())
-- 
2.43.0


From 433e885e96bdde6ce7d1e9706f90331046a97f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:42 +0000
Subject: [PATCH 11/13] fix: take apart a file slice image from its beginning

An image built over a read slice that had already been read in part was
read completely by reader() and write_to(), but explode() handed out the
slice at its current position and so lost the front part.
---
 body-image/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/body-image/src/lib.rs b/body-image/src/lib.rs
index 1d702ba..42af43a 100644
--- a/body-image/src/lib.rs
+++ b/body-image/src/lib.rs
@@ -602,7 +602,9 @@ impl BodyImage {
             ImageState::FsRead(f) => {
                 ExplodedImage::FsRead(ReadSlice::new(f, 0, self.len))
             }
-            ImageState::FsReadSlice(rs) => ExplodedImage::FsRead(rs),
+            // Clone to start from the beginning, whatever position the
+            // original was given with.
+            ImageState::FsReadSlice(rs) => ExplodedImage::FsRead(rs.clone()),
             #[cfg(feature = "mmap")]
             ImageState::MemMap(m) => ExplodedImage::MemMap(m),
         }
-- 
2.43.0


From 61e9cdef96669f1ad8abda2ad276e8e5f583b91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:40 +0000
Subject: [PATCH 12/13] fix: limit request bodies of compressed records to
 max_body

The response body of a compressed record was already subject to
Tunables::max_body on read, but the request body was decompressed to a
file of whatever length the record head declared.
---
 barc/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/barc/src/lib.rs b/barc/src/lib.rs
index 4021402..f7aa7e0 100644
--- a/barc/src/lib.rs
+++ b/barc/src/lib.rs
@@ -925,6 +925,11 @@ fn read_compressed(rslice: ReadSlice, rhead: &RecordHead, tune: &Tunables)
 
     let req_headers = read_headers(fin, NO_CRLF, rhead.req_h)?;
 
+    // As with the response body below
+    if rhead.req_b > tune.max_body() {
+        return Err(BodyError::BodyTooLong(rhead.req_b).into());
+    }
+
     let req_body = if rhead.req_b <= tune.max_body_ram() {
         read_body_ram(fin, NO_CRLF, rhead.req_b as usize)?
     } else {
-- 
2.43.0


From 8e0105aa7bac25c686197d8336e6bde47cfc732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:17:46 +0000
Subject: [PATCH 13/13] fix: don't fail reads of unaligned memory maps on
 rejected advice

posix_madvise rejects addresses that aren't page aligned, which is the
normal case for a map made of a slice of a file, e.g. the body of a BARC
record. Writing such an image or streaming it then failed. As the advice
is just a hint, only log its failure.
---
 body-image-futio/src/mem_map_buf.rs | 6 ++++--
 body-image/src/_mem_handle_ext.rs   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/body-image-futio/src/mem_map_buf.rs b/body-image-futio/src/mem_map_buf.rs
index 7d02cf9..67d165f 100644
--- a/body-image-futio/src/mem_map_buf.rs
+++ b/body-image-futio/src/mem_map_buf.rs
@@ -40,9 +40,11 @@ impl MemMapBuf {
     }
 
     /// Advise that we will be sequentially accessing the memory map region,
-    /// and that aggressive read-ahead is warranted.
+    /// and that aggressive read-ahead is warranted. This is just a hint, and
+    /// is rejected by the OS for memory that isn't page aligned, so failure
+    /// is only logged.
     pub(crate) fn advise_sequential(&self) -> Result<(), io::Error> {
-        let _new_advice = self.mm.advise(MemAdvice::Sequential)?;
+        let _new_advice = self.mm.advise(MemAdvice::Sequential);
         #[cfg(unix)] {
             debug!("MemMapBuf advise Sequential, obtained {:?}", _new_advice);
         }
diff --git a/body-image/src/_mem_handle_ext.rs b/body-image/src/_mem_handle_ext.rs
index b54ae66..d9e024c 100644
--- a/body-image/src/_mem_handle_ext.rs
+++ b/body-image/src/_mem_handle_ext.rs
@@ -19,7 +19,9 @@ impl<T> MemHandleExt for MemHandle<T>
         where F: FnOnce() -> Result<R, S>,
               S: From<MemAdviseError>
     {
-        let _new_advice = self.advise(advice)?;
+        // Advice is just a hint, and is rejected by the OS for memory that
+        // isn't page aligned, as when mapped from a `ReadSlice`.
+        let _new_advice = self.advise(advice);
 
         #[cfg(unix)]
         {
@@ -28,7 +30,7 @@ impl<T> MemHandleExt for MemHandle<T>
         }
 
         let res = f();
-        self.advise(MemAdvice::Normal)?;
+        self.advise(MemAdvice::Normal).ok();
         res
     }
 }
-- 
2.43.0

