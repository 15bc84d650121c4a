From 20db742c4d722690043d9eb5f96d450720ffb622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 01/25] fix: bound subslice_in_range by the length instead of
 an address

---
 src/slice.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/slice.rs b/src/slice.rs
index c3219bf..491b041 100644
--- a/src/slice.rs
+++ b/src/slice.rs
@@ -41,8 +41,7 @@ where
     fn subslice_in_range(&self, inner: &Self) -> Option<Range<usize>> {
         let offset = self.subslice_offset(inner)?;
         let end = offset.checked_add(inner.len())?;
-        let start = self.as_ptr() as usize;
-        if end > start + self.len() {
+        if end > self.len() {
             None
         } else {
             Some(Range { start: offset, end })
-- 
2.43.0


From 1b65cbc38eb0c9004c0e595f196ede272860d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 02/25] fix: keep PNG text and EXIF captured before a skipped
 chunk

A chunk larger than the buffer made the walker restart from scratch behind it,
so a streamed PNG lost every tEXt/eXIf chunk stored before a large IDAT.
---
 src/exif.rs   |  1 +
 src/parser.rs |  4 ++++
 src/png.rs    | 62 +++++++++++++++++++++++++++++++++++++++------------
 3 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/exif.rs b/src/exif.rs
index 177d7b1..cdd6e5f 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -250,6 +250,7 @@ fn extract_exif_range(
         ParsingState::HeifExifSize(_) => None,
         ParsingState::Cr3ExifSize(_) => None,
         ParsingState::PngPastSignature => None,
+        ParsingState::PngCaptured(_) => None,
     });
     Ok(exif_data
         .and_then(|x| buf.subslice_in_range(x))
diff --git a/src/parser.rs b/src/parser.rs
index 91655da..429125d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -507,6 +507,9 @@ pub(crate) enum ParsingState {
     /// Carried across `Need` / `ClearAndSkip` retries so the resumed
     /// call doesn't re-check signature against a mid-stream slice.
     PngPastSignature,
+    /// Like `PngPastSignature`, with what the walker had already captured
+    /// when a `ClearAndSkip` dropped the buffer.
+    PngCaptured(Box<crate::png::PngCaptured>),
 }
 
 impl Display for ParsingState {
@@ -516,6 +519,7 @@ impl Display for ParsingState {
             ParsingState::HeifExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::Cr3ExifSize(n) => Display::fmt(&format!("ParsingState: {n}"), f),
             ParsingState::PngPastSignature => f.write_str("ParsingState: PngPastSignature"),
+            ParsingState::PngCaptured(_) => f.write_str("ParsingState: PngCaptured"),
         }
     }
 }
diff --git a/src/png.rs b/src/png.rs
index 030a6e8..360ccfb 100644
--- a/src/png.rs
+++ b/src/png.rs
@@ -19,14 +19,14 @@ use crate::parser::ParsingState;
 
 /// Output of [`extract_chunks`]: where the EXIF data lives (if any) and
 /// every `tEXt` (key, value) pair encountered, in file order.
-#[derive(Debug)]
+#[derive(Debug, Clone, Default)]
 pub(crate) struct PngParseOut {
     pub exif: Option<PngExifSource>,
     pub text_chunks: Vec<(String, String)>,
 }
 
 /// Where the EXIF data was found in the PNG.
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub(crate) enum PngExifSource {
     /// PNG 1.5 `eXIf` chunk — TIFF body sits at this byte range inside
     /// the parser buffer. Use this with `bytes::Bytes::slice` for zero-copy.
@@ -103,6 +103,36 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
     Ok(out)
 }
 
+/// What the chunk walker has captured so far, carried across a
+/// `ClearAndSkip` (which drops the bytes it was captured from).
+#[derive(Debug, Clone, Default)]
+pub(crate) struct PngCaptured {
+    out: PngParseOut,
+    text_total: usize,
+    exif_priority: u8,
+}
+
+/// Resume-state for a `ClearAndSkip`. The buffer is about to be dropped, so
+/// an `eXIf` range into it is replaced by an owned copy.
+fn skipped_state(
+    buf: &[u8],
+    mut out: PngParseOut,
+    text_total: usize,
+    exif_priority: u8,
+) -> Option<ParsingState> {
+    if out.exif.is_none() && out.text_chunks.is_empty() {
+        return Some(ParsingState::PngPastSignature);
+    }
+    if let Some(PngExifSource::EXif(range)) = out.exif {
+        out.exif = Some(PngExifSource::Legacy(buf[range].to_vec()));
+    }
+    Some(ParsingState::PngCaptured(Box::new(PngCaptured {
+        out,
+        text_total,
+        exif_priority,
+    })))
+}
+
 /// Walk the PNG chunk stream and extract EXIF + tEXt entries.
 ///
 /// Pure function: no I/O, takes a buffer slice plus the resume-state
@@ -114,7 +144,9 @@ fn hex_decode(s: &str) -> Result<Vec<u8>, ()> {
 /// After a `ClearAndSkip` the parser has dropped the buffer and the
 /// resumed `buf` starts at a fresh file offset, so the returned state
 /// flips to `Some(ParsingState::PngPastSignature)` to tell the next
-/// call not to look for the 8-byte signature at `buf[..8]`.
+/// call not to look for the 8-byte signature at `buf[..8]` — or, when
+/// something was captured before the skip, to
+/// `Some(ParsingState::PngCaptured(_))`, which carries that along too.
 ///
 /// `ClearAndSkip(n)` is interpreted by the parser as "advance the
 /// parser's logical position by `n` bytes from where it is now". The
@@ -129,12 +161,15 @@ pub(crate) fn extract_chunks(
     buf: &[u8],
     state: Option<ParsingState>,
 ) -> Result<PngParseOut, ParsingErrorState> {
-    let past_signature = matches!(state, Some(ParsingState::PngPastSignature));
+    let (past_signature, captured) = match &state {
+        Some(ParsingState::PngPastSignature) => (true, PngCaptured::default()),
+        Some(ParsingState::PngCaptured(captured)) => (true, (**captured).clone()),
+        _ => (false, PngCaptured::default()),
+    };
     // Preserves the incoming flag across error returns. A `Need` keeps
     // whatever the caller already had; only `ClearAndSkip` flips a
     // previously-false flag to true (handled at the skip sites).
-    let preserve = || past_signature.then_some(ParsingState::PngPastSignature);
-    let skipped = || Some(ParsingState::PngPastSignature);
+    let preserve = || if past_signature { state.clone() } else { None };
 
     let mut cursor = if past_signature {
         // Resumed after a ClearAndSkip; buf[0] is a chunk-header
@@ -159,12 +194,11 @@ pub(crate) fn extract_chunks(
         PNG_SIGNATURE.len()
     };
 
-    let mut out = PngParseOut {
-        exif: None,
-        text_chunks: Vec::new(),
-    };
-    let mut text_total: usize = 0;
-    let mut exif_priority: u8 = 0; // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+    let PngCaptured {
+        mut out,
+        mut text_total,
+        mut exif_priority, // 0 = none, 1 = legacy exif, 2 = legacy APP1, 3 = eXIf
+    } = captured;
 
     loop {
         // Need 8 bytes for the chunk header (length:4 + type:4).
@@ -222,7 +256,7 @@ pub(crate) fn extract_chunks(
                     if total > remaining {
                         return Err(ParsingErrorState::new(
                             ParsingError::ClearAndSkip(cursor + total),
-                            skipped(),
+                            skipped_state(buf, out, text_total, exif_priority),
                         ));
                     }
                     cursor += total;
@@ -279,7 +313,7 @@ pub(crate) fn extract_chunks(
                 if total > remaining {
                     return Err(ParsingErrorState::new(
                         ParsingError::ClearAndSkip(cursor + total),
-                        skipped(),
+                        skipped_state(buf, out, text_total, exif_priority),
                     ));
                 }
                 cursor += total;
-- 
2.43.0


From 72740680eb759fb1f24997524556ccdb63835c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 03/25] fix: read every CMT block of a CR3 file in the async
 parser too

parse_exif_async returned only CMT1's entries (no Exif IFD, no GPS).
---
 src/exif.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/exif.rs b/src/exif.rs
index cdd6e5f..b177851 100644
--- a/src/exif.rs
+++ b/src/exif.rs
@@ -100,7 +100,31 @@ fn parse_cr3_exif_iter<R: Read>(
     let cmt_ranges = parser.load_and_parse(reader, skip_by_seek, |buf, _state| {
         cr3::extract_all_cmt_ranges(buf)
     })?;
+    cmt_ranges_to_iter(parser, cmt_ranges)
+}
+
+#[cfg(feature = "tokio")]
+async fn parse_cr3_exif_iter_async<P, R>(
+    parser: &mut P,
+    reader: &mut R,
+    skip_by_seek: crate::parser_async::AsyncSkipBySeekFn<R>,
+) -> Result<ExifIter, crate::Error>
+where
+    P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
+    R: AsyncRead + Unpin + Send,
+{
+    let cmt_ranges = parser
+        .load_and_parse(reader, skip_by_seek, |buf, _state| {
+            cr3::extract_all_cmt_ranges(buf)
+        })
+        .await?;
+    cmt_ranges_to_iter(parser, cmt_ranges)
+}
 
+fn cmt_ranges_to_iter(
+    parser: &mut impl ShareBuf,
+    cmt_ranges: Option<cr3::Cr3CmtRanges>,
+) -> Result<ExifIter, crate::Error> {
     let Some(cmt_ranges) = cmt_ranges else {
         return Err(crate::Error::Malformed {
             kind: crate::error::MalformedKind::IsoBmffBox,
@@ -287,6 +311,9 @@ pub(crate) async fn parse_exif_iter_async<P, R: AsyncRead + Unpin + Send>(
 where
     P: crate::parser_async::AsyncBufParser + crate::parser::ShareBuf,
 {
+    if mime_img == MediaMimeImage::Cr3 {
+        return parse_cr3_exif_iter_async(parser, reader, skip_by_seek).await;
+    }
     if mime_img == MediaMimeImage::Png {
         return parse_png_exif_iter_async(parser, reader, skip_by_seek).await;
     }
-- 
2.43.0


From 0dd42bbf532736fe1069631ef36f42397ebf95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 04/25] fix: find the Motion Photo track of an in-memory JPEG

parse_track on a MediaSource::from_memory JPEG always answered TrackNotFound
although has_embedded_track() was set and the same bytes worked when streamed.
---
 src/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 429125d..78992f9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -848,6 +848,9 @@ impl MediaParser {
                 // Memory mode: zero-copy.
                 self.state.set_memory(memory);
                 let mime_track = match ms.mime {
+                    crate::file::MediaMime::Image(crate::file::MediaMimeImage::Jpeg) => {
+                        return self.parse_jpeg_motion_photo(&mut ms.reader);
+                    }
                     crate::file::MediaMime::Image(_) => return Err(crate::Error::TrackNotFound),
                     crate::file::MediaMime::Track(t) => t,
                 };
@@ -886,9 +889,12 @@ impl MediaParser {
     /// present in the JPEG's XMP.
     fn parse_jpeg_motion_photo<R: Read>(&mut self, reader: &mut R) -> crate::Result<TrackInfo> {
         // Drain the rest of the JPEG into the parse buffer so we can
-        // address the trailing MP4 by its byte offset from EOF.
-        reader.read_to_end(self.buf_mut())?;
-        let buf = self.buf_mut();
+        // address the trailing MP4 by its byte offset from EOF. In memory
+        // mode the whole JPEG is already there.
+        if !self.state.is_memory_mode() {
+            reader.read_to_end(self.buf_mut())?;
+        }
+        let buf = self.buffer();
         let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
             return Err(crate::Error::TrackNotFound);
         };
-- 
2.43.0


From bca84fb6a21e07e2c1acfe2bc615ded1568f4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:32 +0000
Subject: [PATCH 05/25] fix: bound the buffer when looking for a Motion Photo
 trailer

parse_track read a JPEG stream to its end without the MAX_PARSE_BUF_SIZE cap.
---
 src/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 78992f9..8986e09 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -892,7 +892,11 @@ impl MediaParser {
         // address the trailing MP4 by its byte offset from EOF. In memory
         // mode the whole JPEG is already there.
         if !self.state.is_memory_mode() {
-            reader.read_to_end(self.buf_mut())?;
+            let room = MAX_PARSE_BUF_SIZE.saturating_sub(self.buf_mut().len()) as u64;
+            let n = reader.take(room + 1).read_to_end(self.buf_mut())?;
+            if n as u64 > room {
+                return Err(io::Error::from(io::ErrorKind::Unsupported).into());
+            }
         }
         let buf = self.buffer();
         let Some(offset) = crate::jpeg::find_motion_photo_offset(buf) else {
-- 
2.43.0


From dd127193704a608db333fd5454649b6c7bc53528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 06/25] fix: read on when a streamed TIFF's IFD lies beyond the
 buffer

Incomplete data was reported as a malformed file, so a TIFF that parsed from
memory failed when streamed.
---
 src/exif/travel.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/exif/travel.rs b/src/exif/travel.rs
index 39bf989..29617d5 100644
--- a/src/exif/travel.rs
+++ b/src/exif/travel.rs
@@ -176,17 +176,13 @@ impl<'a> IfdHeaderTravel<'a> {
         }
 
         if self.offset + 2 > self.data.len() {
-            return Err(ParsingError::Failed {
-                kind: MalformedKind::TiffHeader,
-                message: format!("invalid ifd offset: {}", self.offset),
-            });
+            return Err(ParsingError::Need(self.offset + 2 - self.data.len()));
         }
 
         let (_, entry_num) =
             TiffHeader::parse_ifd_entry_num(&self.data[self.offset..], self.endian).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::TiffHeader,
-                    message: format!("parse ifd entry count failed: {e:?}"),
+                |e: nom::Err<nom::error::Error<&[u8]>>| {
+                    need_or_failed(e, MalformedKind::TiffHeader, "parse ifd entry count failed")
                 },
             )?;
         let mut pos = self.offset + 2;
@@ -199,9 +195,8 @@ impl<'a> IfdHeaderTravel<'a> {
                 break;
             }
             let (_, sub_ifd) = self.parse_ifd_entry_header(pos as u32).map_err(
-                |e: nom::Err<nom::error::Error<&[u8]>>| ParsingError::Failed {
-                    kind: MalformedKind::IfdEntry,
-                    message: format!("parse ifd entry header failed: {e:?}"),
+                |e: nom::Err<nom::error::Error<&[u8]>>| {
+                    need_or_failed(e, MalformedKind::IfdEntry, "parse ifd entry header failed")
                 },
             )?;
             pos += IFD_ENTRY_SIZE;
@@ -224,6 +219,22 @@ impl<'a> IfdHeaderTravel<'a> {
     }
 }
 
+/// Incomplete data is a request for more bytes, anything else a failure.
+fn need_or_failed(
+    e: nom::Err<nom::error::Error<&[u8]>>,
+    kind: MalformedKind,
+    what: &str,
+) -> ParsingError {
+    match e {
+        nom::Err::Incomplete(Needed::Size(n)) => ParsingError::Need(n.get()),
+        nom::Err::Incomplete(Needed::Unknown) => ParsingError::Need(1),
+        e => ParsingError::Failed {
+            kind,
+            message: format!("{what}: {e:?}"),
+        },
+    }
+}
+
 // fn keep_incomplete_err_only<T: Debug>(e: nom::Err<T>) -> nom::Err<String> {
 //     match e {
 //         nom::Err::Incomplete(n) => nom::Err::Incomplete(n),
-- 
2.43.0


From fccb9b71d46be14e897620fba9af6798c531b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:53 +0000
Subject: [PATCH 07/25] fix: report IFD entries that cannot be decoded

ExifIter skipped them silently, so Exif::errors() was always empty.
---
 src/exif/exif_iter.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index bbbf75b..d00f798 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -396,6 +396,14 @@ impl ExifIterEntry {
             res: Ok(v),
         }
     }
+
+    pub(crate) fn make_err(ifd: usize, tag: TagOrCode, e: EntryError) -> Self {
+        Self {
+            ifd: IfdIndex::new(ifd),
+            tag,
+            res: Err(e),
+        }
+    }
 }
 
 impl std::fmt::Debug for ExifIterEntry {
@@ -560,8 +568,10 @@ impl Iterator for ExifIter {
                         }
                         IfdEntry::Err(e) => {
                             tracing::warn!(?tag_code, ?e, "parse ifd entry error");
+                            let tc = tag_code.unwrap();
+                            let res = Some(ExifIterEntry::make_err(ifd.ifd_idx, tc, e));
                             self.ifds.push(ifd);
-                            continue;
+                            return res;
                         }
                     }
                 }
-- 
2.43.0


From a8d034537547627c59ba2a40912882a52964f043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:28 +0000
Subject: [PATCH 08/25] fix: stop endless iteration over an IFD at offset 0

Offset 0 was exempt from the visited check, so an IFD there that refers to
itself made ExifIter::next loop forever.
---
 src/exif/exif_iter.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index d00f798..e4549bc 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -516,13 +516,11 @@ impl Iterator for ExifIter {
 
                     match entry {
                         IfdEntry::IfdNew(new_ifd) => {
-                            if new_ifd.offset > 0 {
-                                if self.visited_offsets.contains(&new_ifd.offset) {
-                                    // Ignore repeated ifd parsing to avoid dead looping
-                                    continue;
-                                }
-                                self.visited_offsets.insert(new_ifd.offset);
+                            if self.visited_offsets.contains(&new_ifd.offset) {
+                                // Ignore repeated ifd parsing to avoid dead looping
+                                continue;
                             }
+                            self.visited_offsets.insert(new_ifd.offset);
 
                             let is_subifd = if new_ifd.ifd_idx == ifd.ifd_idx {
                                 // Push the current ifd before enter sub-ifd.
-- 
2.43.0


From 8c5d2e6da233ca4c64292b3450517be1b01f7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:53 +0000
Subject: [PATCH 09/25] fix: keep the entries behind a repeated sub-IFD
 reference

A second reference to an already visited sub-IFD dropped the rest of the
directory it stands in.
---
 src/exif/exif_iter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index e4549bc..3b78368 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -518,6 +518,9 @@ impl Iterator for ExifIter {
                         IfdEntry::IfdNew(new_ifd) => {
                             if self.visited_offsets.contains(&new_ifd.offset) {
                                 // Ignore repeated ifd parsing to avoid dead looping
+                                if new_ifd.ifd_idx == ifd.ifd_idx {
+                                    self.ifds.push(ifd);
+                                }
                                 continue;
                             }
                             self.visited_offsets.insert(new_ifd.offset);
-- 
2.43.0


From af6e69f9b39c57af1d939da18eb06e2f80eca69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:22 +0000
Subject: [PATCH 10/25] fix: rewind a CR3 ExifIter to its first block

Loading a further CMT block overwrote ifd0, so rewind() and clone_rewound()
of an iterator that had got that far lost CMT1's entries.
---
 src/exif/exif_iter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 3b78368..06a60e5 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -149,6 +149,8 @@ pub struct ExifIter {
     ifd0: IfdIter,
 
     // Iterating status
+    /// IFD0 of the block being iterated (`ifd0` is always the primary block's)
+    block_ifd0: IfdIter,
     ifds: Vec<IfdIter>,
     visited_offsets: HashSet<usize>,
 
@@ -194,6 +196,7 @@ impl ExifIter {
             input,
             tiff_header,
             tz,
+            block_ifd0: ifd0.clone(),
             ifd0,
             ifds,
             visited_offsets: HashSet::new(),
@@ -214,6 +217,7 @@ impl ExifIter {
             input: self.input.clone(),
             tiff_header: self.tiff_header.clone(),
             tz: self.tz.clone(),
+            block_ifd0: ifd0.clone(),
             ifd0,
             ifds,
             visited_offsets: HashSet::new(),
@@ -229,6 +233,7 @@ impl ExifIter {
     pub fn rewind(&mut self) {
         let ifd0 = self.ifd0.clone_and_rewind();
         self.ifds = vec![ifd0.clone()];
+        self.block_ifd0 = ifd0.clone();
         self.ifd0 = ifd0;
         self.visited_offsets.clear();
         self.current_block_index = 0;
@@ -447,8 +452,8 @@ impl ExifIter {
         match input_into_iter(block_data, header) {
             Ok(iter) => {
                 // Update our state with the new block's data
-                self.ifd0 = iter.ifd0;
-                self.ifds = vec![self.ifd0.clone()];
+                self.block_ifd0 = iter.ifd0;
+                self.ifds = vec![self.block_ifd0.clone()];
                 self.visited_offsets.clear();
                 self.current_block_index += 1;
 
@@ -505,7 +510,7 @@ impl Iterator for ExifIter {
                     ifds_depth = depth,
                     "ifd depth is too deep, just go back to ifd0"
                 );
-                self.ifds.push(self.ifd0.clone_with_state());
+                self.ifds.push(self.block_ifd0.clone_with_state());
             }
 
             let mut ifd = self.ifds.pop()?;
-- 
2.43.0


From f06a223f1ca2dc4a797d9fe2e6c0002426e1a349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 11/25] fix: refuse iloc offsets that overflow instead of
 panicking

---
 src/bbox/iloc.rs |  2 +-
 src/bbox/meta.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bbox/iloc.rs b/src/bbox/iloc.rs
index 4f6ad98..4ba1179 100644
--- a/src/bbox/iloc.rs
+++ b/src/bbox/iloc.rs
@@ -120,7 +120,7 @@ impl IlocBox {
             let extent = item.extents.first()?;
             Some((
                 item.construction_method,
-                item.base_offset + extent.offset,
+                item.base_offset.checked_add(extent.offset)?,
                 extent.length,
             ))
         })
diff --git a/src/bbox/meta.rs b/src/bbox/meta.rs
index caa2b0d..1bb520c 100644
--- a/src/bbox/meta.rs
+++ b/src/bbox/meta.rs
@@ -78,9 +78,11 @@ impl MetaBox {
                     .as_ref()
                     .and_then(|iloc| iloc.item_offset_len(exif_infe.id))
             })
-            .map(|(construction_method, offset, length)| {
-                let start = offset as usize;
-                let end = (offset + length) as usize;
+            .and_then(|(construction_method, offset, length)| {
+                let end = offset.checked_add(length)?;
+                Some((construction_method, offset as usize, end as usize))
+            })
+            .map(|(construction_method, start, end)| {
                 match construction_method {
                     ConstructionMethod::FileOffset => {
                         if end > input.len() {
@@ -114,7 +116,7 @@ impl MetaBox {
             })
             .and_then(|(construction_method, offset, length)| {
                 let start = offset as usize;
-                let end = (offset + length) as usize;
+                let end = offset.checked_add(length)? as usize;
                 match construction_method {
                     ConstructionMethod::FileOffset => Some(start..end),
                     ConstructionMethod::IdatOffset => {
-- 
2.43.0


From 97ac31cfccd3746c112c0428290154962d27c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 12/25] fix: read 4-byte EBML floats instead of returning 0

---
 src/ebml/element.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ebml/element.rs b/src/ebml/element.rs
index d70714e..f9bc218 100644
--- a/src/ebml/element.rs
+++ b/src/ebml/element.rs
@@ -250,7 +250,8 @@ pub(crate) fn get_as_f64(cursor: &mut Cursor<&[u8]>, size: usize) -> Option<f64>
 
     let n = match size {
         4 => {
-            let buf = [0u8; 4];
+            let mut buf = [0u8; 4];
+            cursor.read_exact(&mut buf).ok()?;
             f32::from_be_bytes(buf) as f64
         }
         5..=8 => {
-- 
2.43.0


From 1aaf4c49fb04344804fe3a99a8eac432da37ddb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 13/25] fix: scale the WebM duration by a TimestampScale that
 follows it

---
 src/ebml/webm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 0b0960c..22634c2 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -339,6 +339,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
     // timestamp in nanosecond = element value * TimestampScale
     // By default, one segment tick represents one millisecond
     let mut time_scale = 1_000_000;
+    let mut duration = 0f64;
     let mut info = SegmentInfo::default();
 
     while cursor.has_remaining() {
@@ -355,7 +356,7 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
                 }
                 InfoId::Duration => {
                     if let Some(v) = get_as_f64(cursor, header.data_size) {
-                        info.duration = v * time_scale as f64;
+                        duration = v;
                     }
                 }
                 InfoId::Date => {
@@ -375,6 +376,8 @@ fn parse_segment_info_body(cursor: &mut Cursor<&[u8]>) -> Result<SegmentInfo, Pa
             cursor.consume(header.data_size);
         }
     }
+    // TimestampScale may also follow Duration
+    info.duration = duration * time_scale as f64;
 
     Ok(info)
 }
-- 
2.43.0


From 0c0a9296ba153aabc9fd248a5668fc67f468df10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:00 +0000
Subject: [PATCH 14/25] fix: resolve WebM seek positions from the segment data

---
 src/ebml/webm.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ebml/webm.rs b/src/ebml/webm.rs
index 22634c2..ca49ac1 100644
--- a/src/ebml/webm.rs
+++ b/src/ebml/webm.rs
@@ -391,12 +391,17 @@ fn parse_seeks(input: &[u8], pos: usize) -> Result<HashMap<u32, u64>, ParsingErr
         return Err(ParsingError::Need(header.data_size - cursor.remaining()));
     }
 
-    let header_pos = pos + cursor.position() as usize - header.header_size;
     let mut cur = Cursor::new(&cursor.chunk()[..header.data_size]);
     let mut seeks = parse_seek_head(&mut cur)?;
-    for (_, pos) in seeks.iter_mut() {
-        *pos += header_pos as u64;
-    }
+    // Seek positions are relative to the first byte of the segment's data. Drop
+    // those which cannot be represented.
+    seeks.retain(|_, seek_pos| match seek_pos.checked_add(pos as u64) {
+        Some(x) => {
+            *seek_pos = x;
+            true
+        }
+        None => false,
+    });
     Ok(seeks)
 }
 
-- 
2.43.0


From 6bf4214eea4d352b63f3a495caf1b9807e953911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:01 +0000
Subject: [PATCH 15/25] fix: look up the key of an ilst item by its index

---
 src/bbox/ilst.rs |  4 ++--
 src/mov.rs       | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7d3bcea..7598654 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -37,8 +37,8 @@ impl IlstBox {
 #[derive(Debug, Clone, PartialEq)]
 pub struct IlstItem {
     size: u32,
-    index: u32,    // 1-based index (start from 1)
-    data_len: u32, // including self size
+    pub index: u32, // 1-based index (start from 1)
+    data_len: u32,  // including self size
 
     /// Type indicator, see [type
     /// indicator](https://developer.apple.com/documentation/quicktime-file-format/type_indicator)
diff --git a/src/mov.rs b/src/mov.rs
index d7886df..efdd6b5 100644
--- a/src/mov.rs
+++ b/src/mov.rs
@@ -237,11 +237,15 @@ fn parse_meta(input: &[u8]) -> Option<Vec<(String, EntryValue)>> {
     let (_, keys) = KeysBox::parse_box(keys.data).ok()?;
     let (_, ilst) = IlstBox::parse_box(ilst.data).ok()?;
 
-    let entries = keys
-        .entries
+    let entries = ilst
+        .items
         .into_iter()
-        .map(|k| k.key)
-        .zip(ilst.items.into_iter().map(|v| v.value))
+        .filter_map(|item| {
+            // the index of an item is 1-based
+            let index = (item.index as usize).checked_sub(1)?;
+            let key = keys.entries.get(index)?;
+            Some((key.key.clone(), item.value))
+        })
         .collect::<Vec<_>>();
 
     Some(entries)
-- 
2.43.0


From 03541518b0751e47f22962fc3852997ae9b89308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:34 +0000
Subject: [PATCH 16/25] fix: keep the sign of one-byte ilst integers

---
 src/bbox/ilst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 7598654..997ebb8 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -97,7 +97,7 @@ fn parse_value(type_code: u32, data: &[u8]) -> crate::Result<EntryValue> {
             Text(s)
         }
         21 => match data.len() {
-            1 => data[0].into(),
+            1 => (data[0] as i8).into(),
             2 => be_i16(data)
                 .map_err(|e| nom_err_to_malformed(e, MalformedKind::IsoBmffBox))?
                 .1
-- 
2.43.0


From e6d77545a45eebcb0b03760b6897f865ba41ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 17/25] fix: recognise MP4 files by their compatible brands

---
 src/file.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index d9ad76e..c824d04 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -8,7 +8,6 @@ use crate::{
     exif::TiffHeader,
     jpeg::check_jpeg,
     raf::RafInfo,
-    slice::SubsliceRange,
 };
 
 const HEIF_HEIC_BRAND_NAMES: &[&[u8]] = &[
@@ -187,7 +186,7 @@ fn parse_bmff_mime(input: &[u8]) -> crate::Result<MediaMime> {
 
     if MP4_BRAND_NAMES
         .iter()
-        .any(|v| compatible_brands.subslice_in_range(v.as_bytes()).is_some())
+        .any(|v| compatible_brands.find_substring(v.as_bytes()).is_some())
     {
         if major_brand.starts_with(b"3gp") {
             return Ok(MediaMime::Track(MediaMimeTrack::_3gpp));
-- 
2.43.0


From 45609733a2760bac9a4e5dbe9ac2c2f46adab9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:32 +0000
Subject: [PATCH 18/25] fix: follow a next-IFD link at the end of the data

The link takes 4 bytes, but 12 had to be left for it to be read.
---
 src/exif/exif_iter.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index 06a60e5..c4b5412 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -1046,10 +1046,6 @@ impl Iterator for IfdIter {
             pos = format!("{:08x}", self.pos),
             "next IFD entry"
         );
-        if self.input.len() < self.pos + IFD_ENTRY_SIZE {
-            return None;
-        }
-
         let endian = self.header.endian;
         if self.index > self.entry_num {
             return None;
-- 
2.43.0


From dc0d6a686e7d7137377e79291b7c94831d17bae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 19/25] fix: do not overflow the entry index of a directory of
 65535 entries

---
 src/exif/exif_iter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/exif/exif_iter.rs b/src/exif/exif_iter.rs
index c4b5412..69ae1de 100644
--- a/src/exif/exif_iter.rs
+++ b/src/exif/exif_iter.rs
@@ -603,8 +603,9 @@ pub(crate) struct IfdIter {
 
     pub tz: Option<String>,
 
-    // Iterating status
-    index: u16,
+    // Iterating status; goes one past `entry_num` once the next-IFD link has
+    // been read
+    index: u32,
     pos: usize,
 }
 
@@ -1047,10 +1048,11 @@ impl Iterator for IfdIter {
             "next IFD entry"
         );
         let endian = self.header.endian;
-        if self.index > self.entry_num {
+        let entry_num = u32::from(self.entry_num);
+        if self.index > entry_num {
             return None;
         }
-        if self.index == self.entry_num {
+        if self.index == entry_num {
             tracing::debug!(
                 self.ifd_idx,
                 self.index,
-- 
2.43.0


From 093d19a8b1c570409e14a845572c7a7effea5a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 20/25] fix: read version 1 mvhd and tkhd boxes by their own
 layout

---
 src/bbox/mvhd.rs | 35 ++++++++++++++++++++++++++++----
 src/bbox/tkhd.rs | 52 +++++++++++++++++++++---------------------------
 2 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index d00d7df..f5a1b0c 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -1,5 +1,10 @@
 use chrono::{DateTime, Duration, FixedOffset, Local, NaiveDate, NaiveDateTime, TimeZone, Utc};
-use nom::{bytes::complete::take, number::complete::be_u32, Parser};
+use nom::{
+    bytes::complete::take,
+    combinator::map_res,
+    number::complete::{be_u32, be_u64},
+    Parser,
+};
 
 use super::{FullBoxHeader, ParseBody};
 
@@ -29,7 +34,7 @@ pub struct MvhdBox {
     /// # convert to seconds
     ///
     /// seconds = duration / time_scale
-    duration: u32,
+    duration: u64,
     // omit 76 bytes...
     next_track_id: u32,
 }
@@ -63,8 +68,30 @@ impl MvhdBox {
 
 impl ParseBody<MvhdBox> for MvhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], MvhdBox> {
-        let (remain, (creation_time, modification_time, time_scale, duration, _, next_track_id)) =
-            (be_u32, be_u32, be_u32, be_u32, take(76usize), be_u32).parse(body)?;
+        // the times and the duration of a version 1 box are 64-bit numbers
+        let (remain, (creation_time, modification_time, time_scale, duration)) =
+            if header.version == 1 {
+                (
+                    map_res(be_u64, u32::try_from),
+                    map_res(be_u64, u32::try_from),
+                    be_u32,
+                    be_u64,
+                )
+                    .parse(body)?
+            } else {
+                let (remain, (creation_time, modification_time, time_scale, duration)) =
+                    (be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (
+                    remain,
+                    (
+                        creation_time,
+                        modification_time,
+                        time_scale,
+                        duration as u64,
+                    ),
+                )
+            };
+        let (remain, (_, next_track_id)) = (take(76usize), be_u32).parse(remain)?;
 
         Ok((
             remain,
diff --git a/src/bbox/tkhd.rs b/src/bbox/tkhd.rs
index 9afe179..5477bc9 100644
--- a/src/bbox/tkhd.rs
+++ b/src/bbox/tkhd.rs
@@ -20,14 +20,14 @@ pub struct TkhdBox {
     header: FullBoxHeader,
 
     /// seconds since midnight, January 1, 1904
-    creation_time: u32,
+    creation_time: u64,
 
     /// seconds since midnight, January 1, 1904
-    modification_time: u32,
+    modification_time: u64,
 
     track_id: u32,
     // reserved: u32,
-    duration: u32,
+    duration: u64,
     // reserved2: u64,
     layer: u16,
     alt_group: u16,
@@ -41,31 +41,25 @@ pub struct TkhdBox {
 
 impl ParseBody<TkhdBox> for TkhdBox {
     fn parse_body(body: &[u8], header: FullBoxHeader) -> nom::IResult<&[u8], TkhdBox> {
-        let (
-            remain,
-            (
-                creation_time,
-                modification_time,
-                track_id,
-                _,
-                duration,
-                _,
-                layer,
-                alt_group,
-                volume,
-                _,
-                _,
-                width,
-                _,
-                height,
-                _,
-            ),
-        ) = (
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
-            be_u32,
+        // the times and the duration of a version 1 box are 64-bit numbers
+        let (remain, (creation_time, modification_time, track_id, _, duration)) =
+            if header.version == 1 {
+                (be_u64, be_u64, be_u32, be_u32, be_u64).parse(body)?
+            } else {
+                let (remain, (creation_time, modification_time, track_id, reserved, duration)) =
+                    (be_u32, be_u32, be_u32, be_u32, be_u32).parse(body)?;
+                (
+                    remain,
+                    (
+                        creation_time as u64,
+                        modification_time as u64,
+                        track_id,
+                        reserved,
+                        duration as u64,
+                    ),
+                )
+            };
+        let (remain, (_, layer, alt_group, volume, _, _, width, _, height, _)) = (
             be_u64,
             be_u16,
             be_u16,
@@ -77,7 +71,7 @@ impl ParseBody<TkhdBox> for TkhdBox {
             be_u16,
             be_u16,
         )
-            .parse(body)?;
+            .parse(remain)?;
 
         Ok((
             remain,
-- 
2.43.0


From 19b78e1d8007ac580c696a5d05ba0d856243ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:26 +0000
Subject: [PATCH 21/25] fix: compute the movie duration exactly

Rounding in floating point lost a millisecond (1001 units of 1/1000 s gave 1000 ms),
and a zero time scale gave an absurd duration.
---
 src/bbox/mvhd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bbox/mvhd.rs b/src/bbox/mvhd.rs
index f5a1b0c..dbfb5e1 100644
--- a/src/bbox/mvhd.rs
+++ b/src/bbox/mvhd.rs
@@ -41,7 +41,11 @@ pub struct MvhdBox {
 
 impl MvhdBox {
     pub fn duration_ms(&self) -> u64 {
-        ((self.duration as f64) / (self.time_scale as f64) * 1000_f64) as u64
+        let ms = (self.duration as u128)
+            .saturating_mul(1000)
+            .checked_div(self.time_scale as u128)
+            .unwrap_or(0);
+        u64::try_from(ms).unwrap_or(u64::MAX)
     }
 
     fn creation_time_naive(&self) -> NaiveDateTime {
-- 
2.43.0


From 7c79a8b8a3d910d7a1ba8b9ca9eecfab8c51e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 22/25] fix: keep the ilst items behind one whose type is not
 supported

---
 src/bbox/ilst.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/bbox/ilst.rs b/src/bbox/ilst.rs
index 997ebb8..7fbd25b 100644
--- a/src/bbox/ilst.rs
+++ b/src/bbox/ilst.rs
@@ -1,5 +1,5 @@
 use nom::bytes::complete::{tag, take};
-use nom::combinator::{fail, map_res};
+use nom::combinator::fail;
 use nom::error::context;
 use nom::multi::many0;
 use nom::number::complete::{
@@ -30,6 +30,9 @@ impl IlstBox {
         let (remain, header) = BoxHeader::parse(input)?;
         let (remain, items) = many0(IlstItem::parse).parse(remain)?;
 
+        // items of unsupported types are left out, the others are kept
+        let items = items.into_iter().flatten().collect();
+
         Ok((remain, IlstBox { header, items }))
     }
 }
@@ -50,7 +53,8 @@ pub struct IlstItem {
 }
 
 impl IlstItem {
-    fn parse<'a>(input: &'a [u8]) -> nom::IResult<&'a [u8], IlstItem> {
+    /// Returns `None` for a well-formed item whose value is not supported.
+    fn parse(input: &[u8]) -> nom::IResult<&[u8], Option<IlstItem>> {
         let (remain, (size, index, data_len, _, type_set, type_code, local)) =
             (be_u32, be_u32, be_u32, tag("data"), u8, be_u24, be_u32).parse(input)?;
 
@@ -63,14 +67,14 @@ impl IlstItem {
             context("invalid ilst item", fail::<_, (), _>()).parse(remain)?;
         }
 
-        let (remain, value) = map_res(take(data_len - 16), |bs: &'a [u8]| {
-            parse_value(type_code, bs)
-        })
-        .parse(remain)?;
+        let (remain, bs) = take(data_len - 16).parse(remain)?;
+        let Ok(value) = parse_value(type_code, bs) else {
+            return Ok((remain, None));
+        };
 
         Ok((
             remain,
-            IlstItem {
+            Some(IlstItem {
                 size,
                 index,
                 data_len,
@@ -78,7 +82,7 @@ impl IlstItem {
                 type_code,
                 local,
                 value,
-            },
+            }),
         ))
     }
 }
-- 
2.43.0


From 0f8c5607a8d3feb862a6046a9978271bd33b77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 23/25] fix: read a user data list terminated by a 32-bit zero

---
 src/bbox.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bbox.rs b/src/bbox.rs
index 49ac77a..916f5d5 100644
--- a/src/bbox.rs
+++ b/src/bbox.rs
@@ -183,7 +183,8 @@ pub fn to_boxes(input: &[u8]) -> crate::Result<Vec<BoxHolder<'_>>> {
     let mut res = Vec::new();
     let mut remain = input;
     loop {
-        if remain.is_empty() {
+        // a QuickTime user data list is optionally terminated by a 32-bit zero
+        if remain.is_empty() || remain == [0; 4] {
             break;
         }
 
-- 
2.43.0


From 7195bb0daf3c7cc0e645aa81d425e1600c1d1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 24/25] fix: look past APP1 segments that are not Exif in a
 JPEG

---
 src/jpeg.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index 9a2f757..4ce4721 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -222,7 +222,8 @@ fn find_exif_segment(input: &[u8]) -> IResult<&[u8], Option<Segment<'_>>> {
         );
 
         let s = &segment;
-        if (s.marker_code == MarkerCode::APP1.code() && check_exif_header(s.payload)?)
+        if (s.marker_code == MarkerCode::APP1.code()
+            && check_exif_header(s.payload).unwrap_or(false))
             || s.marker_code == MarkerCode::Sos.code()
         // searching stop at SOS
         {
-- 
2.43.0


From 365e7fb47a1773eb868d3eca0d40c043c1196a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:48 +0000
Subject: [PATCH 25/25] fix: read on when a RAF's JPEG starts at the end of the
 buffer

---
 src/raf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raf.rs b/src/raf.rs
index 27252ce..be9cfef 100644
--- a/src/raf.rs
+++ b/src/raf.rs
@@ -48,7 +48,8 @@ impl RafInfo<'_> {
             })?;
         let (remain, _) = take(skip_n)(remain)?;
 
-        // parse as a JPEG
+        // parse as a JPEG; its marker may not be buffered yet
+        take(2usize)(remain)?;
         jpeg::check_jpeg(remain).map_err(|_| {
             nom::Err::Failure(nom::error::make_error(remain, nom::error::ErrorKind::Fail))
         })?;
-- 
2.43.0

