From 51cd2f6595ff42aa73c5093a2433cd0a7c35fe9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 01/33] fix: report the add bytes of a section in its header
 once, also for interleaved sections

The count was added on top of the header field for segregated sections (which
already carry it) and never computed for interleaved ones, the reverse of what
the function documents.
---
 smdiff-reader/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 2cbe7d1..6fe9a0b 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -82,7 +82,6 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let len = op.oal() as u32;
                 check_size += len;
                 if op.is_add(){
-                    header.num_add_bytes += len;
                     add_idxs.push(buffer_offset+i as usize);
                 }
                 op_buffer.push(op);
@@ -102,14 +101,20 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
         },
         Format::Interleaved => {
             let mut check_size = 0;
+            let mut add_size = 0;
             for _ in 0..*num_operations {
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
-                check_size += op.oal() as u32;
+                let len = op.oal() as u32;
+                check_size += len;
+                if op.is_add(){
+                    add_size += len;
+                }
                 op_buffer.push(op);
             }
             if &check_size != output_size{
                 return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} != Sum(ops.oal()) {}",output_size,check_size)));
             }
+            header.num_add_bytes = add_size;
             Ok(())
         }
     }
-- 
2.43.0


From d015eaa275f785fabb70fefaf21d91cff51ab148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 02/33] fix: address differences of 2^63 overflow

---
 smdiff-common/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index e04aa51..d344389 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -319,7 +319,7 @@ pub fn diff_addresses_to_u64(cur: u64, input: i64) -> u64 {
         cur.wrapping_add(input as u64)
     } else {
         // i is negative, so convert the absolute value to u64 and subtract
-        let positive_i = input.abs() as u64; // This is safe because `abs()` of a negative i64 can always fit in u64
+        let positive_i = input.unsigned_abs(); // unlike `abs()`, this also holds for i64::MIN
         cur.wrapping_sub(positive_i)
     }
 }
@@ -330,7 +330,7 @@ pub fn diff_addresses_to_i64(cur: u64, target: u64) -> i64 {
     if target > cur {
         (target - cur) as i64
     } else {
-        (cur - target) as i64 * -1
+        ((cur - target) as i64).wrapping_neg() // i64::MIN is its own negation
     }
 }
 
-- 
2.43.0


From d3f7977e643203b486c1921a259aa2ebc0e4d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 03/33] fix: reject u-varints that do not fit in 64 bits

They overflowed the shift: a panic in a debug build, a wrong value otherwise.
---
 smdiff-common/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-common/src/lib.rs b/smdiff-common/src/lib.rs
index d344389..5467c1a 100644
--- a/smdiff-common/src/lib.rs
+++ b/smdiff-common/src/lib.rs
@@ -256,6 +256,10 @@ pub fn read_u_varint<R: std::io::Read>(reader: &mut R) -> std::io::Result<u64> {
     loop {
         reader.read_exact(&mut b)?;
         let byte = b[0];
+        // the 10th byte can only hold the top bit of a u64
+        if shift > 63 || (shift == 63 && byte & 0x7F > 1) {
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "u-varint does not fit in 64 bits"));
+        }
         result |= ((byte & 0x7F) as u64) << shift;
         if byte & 0x80 == 0 {
             break;
-- 
2.43.0


From d73ad58b71a72f45120df349e04cbe3531d016ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 04/33] fix: reject section headers whose values do not fit

They were truncated to 32 bits, and the sum of the two size fields could overflow.
---
 smdiff-reader/src/lib.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 6fe9a0b..faf6b76 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -9,7 +9,7 @@
 //!
 use std::io::Read;
 
-use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, MAX_WIN_SIZE, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Op Type alias for the Readers Add type
@@ -37,18 +37,16 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     let compression_algo = (header_byte & SECTION_COMPRESSION_MASK) >> SECTION_COMPRESSION_RSHIFT;
     let format = if header_byte & SECTION_FORMAT_BIT == SECTION_FORMAT_BIT{Format::Segregated} else {Format::Interleaved};
     let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;
-    let num_operations = read_u_varint(reader)? as u32;
+    let num_operations = read_header_u32(reader)?;
     let num_add_bytes = if format.is_segregated() {
-        read_u_varint(reader)? as u32
+        read_header_u32(reader)?
     } else {
         0
     };
-    let read_size = read_u_varint(reader)? as u32;
-    let output_size = if format.is_segregated(){
-        num_add_bytes + read_size
-    }else{
-        read_size
-    };
+    let read_size = read_header_u32(reader)?;
+    //for segregated sections the value we read is the difference to the actual output size
+    let output_size = num_add_bytes.checked_add(read_size).filter(|s| *s as usize <= MAX_WIN_SIZE)
+        .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section output size is greater than MAX_WIN_SIZE"))?;
 
     Ok(SectionHeader {
         compression_algo,
@@ -60,6 +58,11 @@ pub fn read_section_header<R: std::io::Read>(reader: &mut R) -> std::io::Result<
     })
 }
 
+fn read_header_u32<R: std::io::Read>(reader: &mut R) -> std::io::Result<u32> {
+    u32::try_from(read_u_varint(reader)?)
+        .map_err(|_| std::io::Error::new(std::io::ErrorKind::InvalidData, "Section header value does not fit in 32 bits"))
+}
+
 /// Reads the operations from the reader at the current position. Cannot have secondary compression still applied.
 ///
 /// The mutable reference to the section header is so that the
-- 
2.43.0


From 00668366871accc37bc7b92065a9c444b5785564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 05/33] fix: do not allocate for the operation count a section
 header claims

A ten byte patch could demand over 100 GB.
---
 smdiff-reader/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index faf6b76..beb4d49 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -12,6 +12,9 @@ use std::io::Read;
 use smdiff_common::{diff_addresses_to_u64, read_i_varint, read_u16, read_u8, read_u_varint, size_routine, AddOp, Copy, CopySrc, Format, Run, SectionHeader, Size, ADD, COPY_D, COPY_O, MAX_WIN_SIZE, OP_MASK, RUN, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
+/// Upper bound for the operations we make room for ahead of reading them.
+const MAX_OP_RESERVE: usize = 1 << 16;
+
 /// Op Type alias for the Readers Add type
 pub type Op = smdiff_common::Op<Add>;
 
@@ -73,7 +76,8 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
     //dbg!(&header);
     let mut cur_d_addr = 0;
     let mut cur_o_addr = 0;
-    op_buffer.reserve(*num_operations as usize);
+    //the count is not trustworthy until the operations have been read
+    op_buffer.reserve((*num_operations as usize).min(MAX_OP_RESERVE));
     match format {
         Format::Segregated => {
             let buffer_offset = op_buffer.len();
@@ -128,7 +132,6 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
 /// This is just a wrapper that completely reads a section from the reader.
 pub fn read_section<R: std::io::Read>(reader: &mut R, op_buffer:&mut Vec<Op>) -> std::io::Result<SectionHeader> {
     let mut header = read_section_header(reader)?;
-    op_buffer.reserve(header.num_operations as usize);
     read_ops_no_comp(reader, &mut header, op_buffer)?;
     Ok(header)
 }
-- 
2.43.0


From dcfebfce3dddf43ede69be156133bcdb9a28eda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 06/33] fix: stop reading a section that outgrows its announced
 output size

Segregated Add operations are allocated before their bytes are read, so three
bytes of patch could allocate 64 KiB without end (and overflow the running sum).
---
 smdiff-reader/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index beb4d49..20c5bdf 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -88,6 +88,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,false)?;
                 let len = op.oal() as u32;
                 check_size += len;
+                check_output_size(check_size, *output_size)?;
                 if op.is_add(){
                     add_idxs.push(buffer_offset+i as usize);
                 }
@@ -113,6 +114,7 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
                 let op = read_op(reader, &mut cur_d_addr, &mut cur_o_addr,true)?;
                 let len = op.oal() as u32;
                 check_size += len;
+                check_output_size(check_size, *output_size)?;
                 if op.is_add(){
                     add_size += len;
                 }
@@ -127,6 +129,14 @@ pub fn read_ops_no_comp<R: std::io::Read>(reader: &mut R, header:&mut SectionHea
     }
 }
 
+///Stops reading as soon as the operations produce more than the header announced.
+fn check_output_size(so_far: u32, output_size: u32) -> std::io::Result<()> {
+    if so_far > output_size {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Window Header output size: {} < Sum(ops.oal()) {}", output_size, so_far)));
+    }
+    Ok(())
+}
+
 ///Returns the ops and the output size. Cannot have secondary compression still applied.
 ///
 /// This is just a wrapper that completely reads a section from the reader.
-- 
2.43.0


From 9df97c938bfeb8fef182c4159cf32c6060e3d359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 07/33] fix: reject operations of length 0, which the format
 rules out

---
 smdiff-reader/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-reader/src/lib.rs b/smdiff-reader/src/lib.rs
index 20c5bdf..c95a73d 100644
--- a/smdiff-reader/src/lib.rs
+++ b/smdiff-reader/src/lib.rs
@@ -189,6 +189,9 @@ pub fn read_op<R: std::io::Read>(reader: &mut R,cur_d_addr:&mut u64,cur_o_addr:&
         Size::U8And62 => read_u8(reader)? as u16 + 62,
         Size::U16 => read_u16(reader)?,
     };
+    if size == 0 {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Operations of length 0 are not allowed"));
+    }
     let op = match op {
         OpType::Copy { src } => {
             let addr = read_i_varint(reader)?;
-- 
2.43.0


From a6b0a7ce89fd96669adc9a9fdff7c0b945e65cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 08/33] fix: a patch that needs a source file is an error
 without one, not a panic

---
 smdiff-decoder/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 6141ec4..556d8a7 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -67,7 +67,7 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     smdiff_common::CopySrc::Dict => {
                         let src = match src.as_mut(){
                             Some(s) => s,
-                            None => panic!("Copy operation without source data"),
+                            None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "Copy operation without source data")),
                         };
                         src.seek(std::io::SeekFrom::Start(copy.addr))?;
                         let len = copy.len as usize;
-- 
2.43.0


From 99a623a0b2252be26855b2d2b036586199de5e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 09/33] fix: a damaged zstd frame header is an error, not a
 panic

---
 smdiff-decoder/src/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index cb4ee30..3bb0de0 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -73,7 +73,8 @@ impl<R: Read+Seek> SectionIterator<R>{
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
-            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source).unwrap();
+            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
+                .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
-- 
2.43.0


From 4d9a9bbc9e955da7a02a97868bb1d781a7016204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 10/33] fix: consume a compressed section to the end of its
 stream

zstd and brotli streams can end in an empty block, which was left unread: the
next section was then read from the middle of it, and brotli reported an error.
---
 smdiff-decoder/src/reader.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 3bb0de0..70c8a35 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -76,9 +76,11 @@ impl<R: Read+Seek> SectionIterator<R>{
             let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
                 .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e.to_string()))?;
             read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
+            expect_end(&mut zstd)?;
         }else if header.compression_algo == 3 {
             let mut brot = brotlic::DecompressorReader::new(&mut self.source);
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
+            expect_end(&mut brot)?;
             let _ = brot.into_inner()?;
         }else{
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
@@ -93,6 +95,20 @@ impl<R: Read+Seek> SectionIterator<R>{
     }
 }
 
+/// The operations were read, but the compressed stream may still hold an end marker.
+/// It must be consumed, as the next section starts right behind it.
+fn expect_end<R: Read>(decompressor: &mut R) -> std::io::Result<()> {
+    let mut byte = [0u8; 1];
+    loop {
+        match decompressor.read(&mut byte) {
+            Ok(0) => return Ok(()),
+            Ok(_) => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compressed section holds more than its operations")),
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e),
+        }
+    }
+}
+
 impl<R: Read+Seek> Iterator for SectionIterator<R> {
     type Item = std::io::Result<(Vec<Op>, SectionHeader)>;
 
-- 
2.43.0


From b39ba1de9b8af7a99e047f3cf07768203677eed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 11/33] fix: sections of an unknown compression algorithm are
 not uncompressed ones

---
 smdiff-decoder/src/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 70c8a35..280ae0c 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -82,8 +82,10 @@ impl<R: Read+Seek> SectionIterator<R>{
             read_ops_no_comp(&mut brot, header,&mut self.ops)?;
             expect_end(&mut brot)?;
             let _ = brot.into_inner()?;
-        }else{
+        }else if header.compression_algo == 0 {
             read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
+        }else{
+            return Err(std::io::Error::new(std::io::ErrorKind::Unsupported, format!("Unknown compression algorithm: {}", header.compression_algo)));
         }
         if !header.more_sections{
             self.done = true;
-- 
2.43.0


From f5948a8ea31733f3a717eb73ddeb44a87122df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 12/33] fix: extraction statistics count every copy twice, and
 output copies as dictionary copies

---
 smdiff-merger/src/lib.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ec50168..b45d1b2 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -196,8 +196,6 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                         },
                     }
                     output.push((o_pos_start,inst));
-                    stats.copy_d(oal_len);
-
                 },
                 smdiff_common::Op::Add(_) => {
                     output.push((o_pos_start,inst));
-- 
2.43.0


From e35670c5af8b498dd4c48c84704ae1b0f0eb9491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 13/33] fix: a terminal patch that only copies its own output
 is already a summary patch

Merger::new panicked in a debug build, and returned a Merger otherwise.
---
 smdiff-merger/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index b45d1b2..ca910d0 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -280,7 +280,10 @@ impl Merger {
         //will need to check this.
         let terminal_patch = deref_copy_o(terminal_patch);
         find_mergeable_copies(&terminal_patch,0,&mut terminal_copy_indices);
-        debug_assert!(!terminal_copy_indices.is_empty(), "terminal_copy_indices should not be empty");
+        if terminal_copy_indices.is_empty(){
+            //the only copies were from the output itself, nothing depends on a predecessor.
+            return Ok(Err(SummaryPatch(terminal_patch.into_iter().map(|s|s.1).collect())));
+        }
         Ok(Ok(Merger{
             terminal_patch,
             terminal_copy_indices,
-- 
2.43.0


From e89dc2bd46d5bf4a9d331d963e4a5876879e03a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 14/33] fix: patches that do not fit together are a merge
 error, not a panic

---
 smdiff-merger/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index ca910d0..28ff330 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -192,6 +192,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
+                            if c.addr.checked_add(c.len as u64).map_or(true, |end| end > o_pos_start){
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy of output that has not been produced yet"));
+                            }
                             stats.copy_o(oal_len);
                         },
                     }
@@ -319,7 +322,8 @@ impl Merger {
             //this a src window copy that we need to resolve from the predecessor patch.
             debug_assert!(matches!(copy.src, smdiff_common::CopySrc::Dict));
             let o_start = copy.addr; //ssp is o_pos, u is offset from that.
-            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32).unwrap();
+            let resolved = get_exact_slice(&predecessor_patch, o_start, copy.len as u32)
+                .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, "The predecessor patch does not produce the bytes that are copied from its output"))?;
             //debug_assert_eq!(sum_len_in_o(&resolved), copy.len_in_o() as u64, "resolved: {:?} copy: {:?}",resolved,copy);
             find_mergeable_copies(&resolved, i+shift, &mut terminal_copy_indices);
             shift += resolved.len() - 1;
-- 
2.43.0


From 0556f704cb357a608790bf84f1917fb0ef340cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 15/33] fix: transcoding a patch without operations underflows

---
 smdiff-merger/src/transcoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smdiff-merger/src/transcoder.rs b/smdiff-merger/src/transcoder.rs
index de2c759..561a65e 100644
--- a/smdiff-merger/src/transcoder.rs
+++ b/smdiff-merger/src/transcoder.rs
@@ -84,7 +84,7 @@ fn optimize_and_convert_ops(mut ops: Vec<InnerOp>)->Vec<Op> {
 
 fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Add(first)), Some(InnerOp::Add(second))) = (left.last_mut(), right.first_mut()) {
             if !second.is_empty() && first.len() < MAX_INST_SIZE as usize {
@@ -98,7 +98,7 @@ fn join_adjacent_adds(ops: &mut Vec<InnerOp>) {
 
 fn join_adjacent_runs(ops: &mut Vec<InnerOp>) {
     let mut i = 0;
-    while i < ops.len() - 1 {
+    while i + 1 < ops.len() {
         let (left, right) = ops.split_at_mut(i + 1);
         if let (Some(InnerOp::Run { byte: byte1, len: len1,.. }), Some(InnerOp::Run { byte: byte2, len: len2, .. })) = (left.last_mut(), right.first_mut()) {
             if byte1 == byte2 {
-- 
2.43.0


From 91a869bb2065c2237f85a0a75f13f65772f82c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 16/33] fix: encoder reads past the end of the target when a
 match ends near its end

---
 smdiff-encoder/src/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/encoder.rs b/smdiff-encoder/src/encoder.rs
index 2828885..fe079c3 100644
--- a/smdiff-encoder/src/encoder.rs
+++ b/smdiff-encoder/src/encoder.rs
@@ -186,7 +186,9 @@ pub(crate) fn encode_inner(config:&mut GenericEncoderConfig,src:&[u8],trgt:&[u8]
                         add_start_positions_to_matcher(matcher, cur_o_pos, src)
                     }
                     if matcher.fwd_pos < matcher.max_fwd_hash_pos{
-                        if matcher.fwd_pos + 9 > cur_o_pos{
+                        if cur_o_pos > matcher.max_fwd_hash_pos{
+                            //less than a hash window remains, so there is nothing left to hash (or match).
+                        }else if matcher.fwd_pos + 9 > cur_o_pos{
                             for old_pos in matcher.fwd_pos..cur_o_pos{
                                 matcher.fwd_hash = update_large_checksum_fwd(matcher.fwd_hash, trgt[old_pos], trgt[old_pos+9]);
                             }
-- 
2.43.0


From ee90fc0471f64d3cb42d6bbe33675d586ade9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 17/33] fix: target matcher prefill reads past the end of a
 short target tail

---
 smdiff-encoder/src/trgt_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 222e6ec..5128f5a 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -168,7 +168,7 @@ impl TrgtMatcherConfig {
         };
         if trgt_start_pos > 0 { //prefill with hash start positions.
             let start = trgt_start_pos.saturating_sub(self.prev_table_capacity.unwrap());
-            let end = trgt_start_pos;
+            let end = trgt_start_pos.min(matcher.max_fwd_hash_pos);
             let mut hash = calculate_small_checksum(&trgt[start..]);
             matcher.store(hash as usize, start);
             for old_pos in start..end{
-- 
2.43.0


From 9b1b1b51314face15eddf0d667660f9041041d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 18/33] fix: a position that was stored twice sends the target
 matcher into an endless loop

---
 smdiff-encoder/src/hashmap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/hashmap.rs b/smdiff-encoder/src/hashmap.rs
index cc3e984..4acf1ea 100644
--- a/smdiff-encoder/src/hashmap.rs
+++ b/smdiff-encoder/src/hashmap.rs
@@ -211,7 +211,7 @@ impl<'a> Iterator for PrevPositionIterator<'a> {
             let populated_bucket = self.list.get_prev_pos(self.last_pos)?;
             // Check for termination conditions
             let prev_pos = populated_bucket.get_value_unchecked(); //safe since get_prev_pos checks
-            if prev_pos > self.last_pos {
+            if prev_pos >= self.last_pos {
                 return None; // End of chain or invalid position
             }
             //This is a valid-looking position, but it may not be part of the chain
-- 
2.43.0


From 2c66b37406dcec677b4efd1af408f9609d5e4927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 19/33] fix: target matcher never hashes the start of the
 target

---
 smdiff-encoder/src/trgt_matcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smdiff-encoder/src/trgt_matcher.rs b/smdiff-encoder/src/trgt_matcher.rs
index 5128f5a..452d7e1 100644
--- a/smdiff-encoder/src/trgt_matcher.rs
+++ b/smdiff-encoder/src/trgt_matcher.rs
@@ -160,7 +160,7 @@ impl TrgtMatcherConfig {
         let mut matcher = TrgtMatcher{
             compress_early_exit: *compress_early_exit,
             chain_check: *chain_check,
-            fwd_hash: 0,
+            fwd_hash: calculate_small_checksum(&trgt[trgt_start_pos..]),
             fwd_pos: trgt_start_pos,
             table,
             chain: ChainList::new(self.prev_table_capacity.unwrap()),
-- 
2.43.0


From bae1d3ffccf48717c40484866d43c880d2b945d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 20/33] fix: refuse to write operations whose length the format
 cannot express

---
 smdiff-writer/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index 5bd9944..e72c3f6 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -1,7 +1,7 @@
 //! This lib is used to *construct* valid SMDIFF format delta files.
 //! This is *not* an encoder.
 //! However, if you did write an encoder this would help you write the ops to a file.
-use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Used to write the header to the section.
@@ -44,6 +44,7 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
     let mut add_bytes_written = 0;
     let mut add_bytes_slices = Vec::new();
     for op in ops {
+        check_op_len(op)?;
         total_content_len += op.oal() as usize;
         write_op_byte_and_size(writer, &op)?;
         match header.format{
@@ -75,6 +76,19 @@ pub fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader
 }
 
 
+/// The format has no representation for empty operations, or for ones longer than their size field.
+fn check_op_len<A:AddOp>(op: &Op<A>) -> std::io::Result<()> {
+    let (len,max_len) = match op {
+        Op::Add(a) => (a.bytes().len(),MAX_INST_SIZE),
+        Op::Copy(c) => (c.len as usize,MAX_INST_SIZE),
+        Op::Run(r) => (r.len as usize,MAX_RUN_LEN as usize),
+    };
+    if len == 0 || len > max_len {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Operation length {} is not in 1..={}", len, max_len)));
+    }
+    Ok(())
+}
+
 fn write_op_byte_and_size<W: std::io::Write,A:AddOp>(writer: &mut W, op: &Op<A>) -> std::io::Result<()> {
     let byte = op.bit_flag();
     let size = size_routine(op.oal());
-- 
2.43.0


From 8756fda21b1e6a873e7b65893bb7177ab48870e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 21/33] fix: an empty VCDIFF copy is not necessarily a copy of
 the source

---
 smdiff-vcdiff/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 8e28dde..061ca89 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -106,6 +106,8 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                             }
                             cur_o_pos += len as u64;
                         },
+                        //produces nothing, and has no equivalent operation.
+                        Inst::Copy(copy) if copy.len_in_u() == 0 => {},
                         Inst::Copy(copy) =>{
                             let (mut addr,src,seq) = match copy.copy_type{
                                 CopyType::CopyS => {
-- 
2.43.0


From 392d046e4561b407e485b456faa660770a8b1efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 22/33] fix: split sequence copies of slices longer than an
 operation

---
 smdiff-vcdiff/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 061ca89..01f4f80 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -134,7 +134,9 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                 let mut processed: u32 = 0;
                                 while processed < total {
                                     let remaining = total - processed;
-                                    let chunk_size = remaining.min(slice_len);
+                                    //a slice that is longer than an operation takes several.
+                                    let offset = processed % slice_len;
+                                    let chunk_size = remaining.min(slice_len - offset).min(MAX_INST_SIZE);
                                     //dbg!(slice_len,chunk_size);
                                     if cur_win_size + chunk_size > MAX_WIN_SIZE as u32{
                                         let header = SectionHeader {
@@ -152,7 +154,7 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                                         cur_win_size = 0;
                                         num_add_bytes = 0;
                                     }
-                                    let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });
+                                    let op = Op::Copy(Copy{ src, addr: addr + offset as u64, len: chunk_size as u16 });
                                     cur_win.push(op);
                                     processed += chunk_size;
                                     cur_win_size += chunk_size;
-- 
2.43.0


From a605961dd246725b2aea47d3299da74db1caf68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 23/33] fix: a VCDIFF that ends inside of a window is an error,
 not a shorter patch

---
 smdiff-vcdiff/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 01f4f80..010f3a6 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -27,10 +27,13 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
     let mut cur_o_pos = 0;
     let mut cur_win_size = 0;
     let mut num_add_bytes = 0;
+    //where the last window that was started must end.
+    let mut end_of_windows = reader.header.encoded_size() as u64;
     loop{
         match reader.next()?{
             VCDiffReadMsg::WindowSummary(ws) => {
                 ssp = ws.source_segment_position;
+                end_of_windows = ws.end_of_window();
                 if ws.win_indicator == WinIndicator::VCD_TARGET{
                     vcd_trgt = true;
                 }
@@ -203,6 +206,10 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
             VCDiffReadMsg::EndOfFile => break,
         }
     }
+    //The reader also reports the end of file for a window that is cut off.
+    if reader.into_inner().seek(std::io::SeekFrom::End(0))? != end_of_windows{
+        return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "VCDIFF ends inside of a window"));
+    }
     //dbg!(cur_o_pos);
     //now we determine what we need to write
     let header = SectionHeader {
-- 
2.43.0


From b88387661f4a418103c472d577f1aefb1aef8fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 24/33] fix: a source copy whose end does not fit in 64 bits is
 a merge error, not a panic

---
 smdiff-merger/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index 28ff330..d3df317 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -189,6 +189,9 @@ pub fn extract_patch_instructions<R:Read + Seek>(patch:R)->std::io::Result<(Vec<
                 smdiff_common::Op::Copy(c) => {
                     match c.src{
                         smdiff_common::CopySrc::Dict => {
+                            if c.addr.checked_add(c.len as u64).is_none(){
+                                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Copy beyond any possible source"));
+                            }
                             stats.copy_d(oal_len);
                         },
                         smdiff_common::CopySrc::Output => {
-- 
2.43.0


From 0cddab427402a22ef52d7ed017a534aed419130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 25/33] fix: a patch must not copy stale sink content as if it
 were its own output

---
 smdiff-decoder/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index 556d8a7..b8f47ae 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -77,6 +77,10 @@ fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Op
                     },
                     smdiff_common::CopySrc::Output => {
                         let start_pos = *cur_o_pos;
+                        //the sink may hold more than what we wrote (e.g. an old file), which is not ours to copy.
+                        if copy.addr.checked_add(copy.len as u64).map_or(true, |end| end > start_pos as u64){
+                            return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "Copy of output that has not been produced yet"));
+                        }
                         cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;
                         let len = copy.len as usize;
                         cur_o.read_exact(&mut copy_buffer[..len])?;
-- 
2.43.0


From 306bf1b78ec1df089a347612dcdf8fc93257b520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:47 +0000
Subject: [PATCH 26/33] fix: bound the payload of a section that is compressed
 with smdiff

A section cannot use more bytes than its operations take, so a nested patch that
makes more is rejected before it is applied. It used to be unpacked completely,
which let a few kilobytes claim gigabytes of memory.
---
 smdiff-decoder/src/lib.rs    | 7 +++++--
 smdiff-decoder/src/reader.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/smdiff-decoder/src/lib.rs b/smdiff-decoder/src/lib.rs
index b8f47ae..beda2e6 100644
--- a/smdiff-decoder/src/lib.rs
+++ b/smdiff-decoder/src/lib.rs
@@ -32,12 +32,15 @@ pub fn apply_patch<P:Read+Seek,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut s
 }
 
 
-fn apply_no_sec_comp<P:Read,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut src:Option<&mut R>,sink:&mut W) -> std::io::Result<()> {
+fn apply_no_sec_comp<P:Read,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut src:Option<&mut R>,sink:&mut W,max_size:usize) -> std::io::Result<()> {
     //To avoid Seek on write, we must write all the output data to a Vec<u8> first
     let mut cur_o_pos = 0;
     let mut reader = smdiff_reader::SectionIterator::new(patch);
     while let Some(res) = reader.next_borrowed(){
-        let (ops,_header) = res?;
+        let (ops,header) = res?;
+        if cur_o_pos + header.output_size as usize > max_size{
+            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compressed section holds more than its operations"));
+        }
         apply_ops(ops, &mut src, sink, &mut cur_o_pos)?;
 
     }
diff --git a/smdiff-decoder/src/reader.rs b/smdiff-decoder/src/reader.rs
index 280ae0c..97af727 100644
--- a/smdiff-decoder/src/reader.rs
+++ b/smdiff-decoder/src/reader.rs
@@ -7,6 +7,9 @@ use smdiff_reader::{read_ops_no_comp, read_section_header, Op};
 
 use crate::apply_no_sec_comp;
 
+/// The most bytes an operation takes besides the bytes to add: the operation, its size and its address.
+const MAX_OP_OVERHEAD: usize = 1 + 2 + 10;
+
 /// A reader that will keep reading sections until it reaches the terminal section.
 pub struct SectionIterator<R>{
     source: BufReader<R>,
@@ -68,8 +71,10 @@ impl<R: Read+Seek> SectionIterator<R>{
         self.win_data.clear();
         self.ops.clear();
         if header.compression_algo == 1 {
+            //every operation makes output, so this is the most that the operations can take up.
+            let max_size = header.output_size as usize + header.num_operations.min(header.output_size) as usize * MAX_OP_OVERHEAD;
             let mut crsr = Cursor::new(&mut self.win_data);
-            apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr)?;
+            apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr, max_size)?;
             crsr.rewind()?;
             read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
         }else if header.compression_algo == 2 {
-- 
2.43.0


From 1b5d659eb4fd940002e01c52a46f16ad6ce20041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 27/33] fix: a VCDIFF window that does not produce its
 announced size is an error

---
 smdiff-vcdiff/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index 010f3a6..e8aa1ed 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -29,11 +29,14 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
     let mut num_add_bytes = 0;
     //where the last window that was started must end.
     let mut end_of_windows = reader.header.encoded_size() as u64;
+    //where the output of the current window must end.
+    let mut end_of_window_output = 0;
     loop{
         match reader.next()?{
             VCDiffReadMsg::WindowSummary(ws) => {
                 ssp = ws.source_segment_position;
                 end_of_windows = ws.end_of_window();
+                end_of_window_output = ws.size_of_the_target_window.saturating_add(cur_o_pos);
                 if ws.win_indicator == WinIndicator::VCD_TARGET{
                     vcd_trgt = true;
                 }
@@ -200,6 +203,9 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                 }
             },
             VCDiffReadMsg::EndOfWindow => {
+                if cur_o_pos != end_of_window_output{
+                    return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF window does not produce its announced size"));
+                }
                 ssp = None;
                 vcd_trgt = false;
             },
-- 
2.43.0


From d4c82a3dc120dbb808de5aac8b28e6b5754d29e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:30 +0000
Subject: [PATCH 28/33] fix: refuse to write section headers that do not fit
 the format

---
 smdiff-writer/src/lib.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/smdiff-writer/src/lib.rs b/smdiff-writer/src/lib.rs
index e72c3f6..56b92a2 100644
--- a/smdiff-writer/src/lib.rs
+++ b/smdiff-writer/src/lib.rs
@@ -1,13 +1,24 @@
 //! This lib is used to *construct* valid SMDIFF format delta files.
 //! This is *not* an encoder.
 //! However, if you did write an encoder this would help you write the ops to a file.
-use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
+use smdiff_common::{diff_addresses_to_i64, size_routine, write_i_varint, write_u16, write_u8, write_u_varint, AddOp, Copy, CopySrc, Format, Op, SectionHeader, Size, MAX_INST_SIZE, MAX_RUN_LEN, MAX_WIN_SIZE, SECTION_COMPRESSION_MASK, SECTION_COMPRESSION_RSHIFT, SECTION_CONTINUE_BIT, SECTION_FORMAT_BIT, SIZE_MASK};
 
 
 /// Used to write the header to the section.
 /// * `header` - The header to write.
 /// * `writer` - The writer to write to.
 pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&mut W) -> std::io::Result<()> {
+    if header.compression_algo > SECTION_COMPRESSION_MASK >> SECTION_COMPRESSION_RSHIFT {
+        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compression algorithm does not fit in the control byte"));
+    }
+    //the size of a segregated section is written without its add bytes.
+    let output_size = if header.format == Format::Segregated {
+        header.output_size.checked_sub(header.num_add_bytes).ok_or_else(||{
+            std::io::Error::new(std::io::ErrorKind::InvalidData, "More add bytes than output")
+        })?
+    } else {
+        header.output_size
+    };
     let mut cntl_byte = header.compression_algo << SECTION_COMPRESSION_RSHIFT;
     if let Format::Segregated = header.format {
         cntl_byte |= SECTION_FORMAT_BIT;  // Set format bit
@@ -17,12 +28,9 @@ pub fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&m
     }
     write_u8(writer, cntl_byte)?;
     write_u_varint(writer, header.num_operations as u64)?;
-    let output_size = if header.format == Format::Segregated {
+    if header.format == Format::Segregated {
         write_u_varint(writer, header.num_add_bytes as u64)?;
-        header.output_size - header.num_add_bytes
-    } else {
-        header.output_size
-    };
+    }
     write_u_varint(writer, output_size as u64)?;
     Ok(())
 }
-- 
2.43.0


From a6ca0a17232401794099119ddbb70d4565bcbf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:55 +0000
Subject: [PATCH 29/33] fix: converting a VCDIFF prints its runs to standard
 output

---
 smdiff-vcdiff/src/lib.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index e8aa1ed..c77825a 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -82,7 +82,6 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                             cur_o_pos += len as u64;
                         },
                         Inst::Run(RUN{ len, byte }) => {
-                            println!("Run @{}: of: {} let: {}",cur_o_pos,byte,len);
                             let total: u32 = len;
                             let mut processed: u32 = 0;
                             while processed < total {
-- 
2.43.0


From 8c9693d3cf9617d92a8badbd9c194f142ac15e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:40 +0000
Subject: [PATCH 30/33] fix: a short piece of a large Add keeps the memory of
 all of it

---
 smdiff-merger/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smdiff-merger/src/lib.rs b/smdiff-merger/src/lib.rs
index d3df317..9a88f0f 100644
--- a/smdiff-merger/src/lib.rs
+++ b/smdiff-merger/src/lib.rs
@@ -33,6 +33,7 @@ impl MergeOp for smdiff_reader::Add {
     }
     fn trunc(&mut self,amt:u32){
         self.bytes.truncate(self.bytes.len() - amt as usize);
+        self.bytes.shrink_to_fit(); //this may be one of very many pieces of a large Add
     }
 }
 impl MergeOp for Op{
-- 
2.43.0


From 373ee007f4315ee117c6a37409838d84c479c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:40 +0000
Subject: [PATCH 31/33] fix: what is left of a failed section is written into
 the next compressed one

---
 smdiff-encoder/src/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smdiff-encoder/src/writer.rs b/smdiff-encoder/src/writer.rs
index e49ad66..ce74ace 100644
--- a/smdiff-encoder/src/writer.rs
+++ b/smdiff-encoder/src/writer.rs
@@ -21,6 +21,7 @@ pub fn section_writer<W:Write,A:AddOp>(
         header.compression_algo = comp.algo_value();
         //dbg!(&header);
         write_section_header(&header, writer)?;
+        sec_data_buffer.clear(); //it may hold what is left of a section that failed
         write_ops(seg_ops,&header,sec_data_buffer)?;
         match comp{
             SecondaryCompression::Smdiff (config) => {
-- 
2.43.0


From 40385e1d4bf9c23de70cec0e8200f75205ea9ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:40 +0000
Subject: [PATCH 32/33] fix: an uncompressed section can be announced as a
 compressed one

---
 smdiff-encoder/src/writer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smdiff-encoder/src/writer.rs b/smdiff-encoder/src/writer.rs
index ce74ace..2b0874b 100644
--- a/smdiff-encoder/src/writer.rs
+++ b/smdiff-encoder/src/writer.rs
@@ -46,6 +46,7 @@ pub fn section_writer<W:Write,A:AddOp>(
         }
         sec_data_buffer.clear();
     }else{
+        header.compression_algo = 0;
         write_section_header(&header, writer)?;
         write_ops(seg_ops,&header,writer)?;
     })
-- 
2.43.0


From d802b59351a601420a7efc3248113f7f49a623fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:36 +0000
Subject: [PATCH 33/33] fix: a VCDIFF window cannot copy output that does not
 exist yet

A window with a target file segment beyond the output of the windows before it was converted
to a patch that copies output before it is produced.
---
 smdiff-vcdiff/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/smdiff-vcdiff/src/lib.rs b/smdiff-vcdiff/src/lib.rs
index c77825a..b2e5563 100644
--- a/smdiff-vcdiff/src/lib.rs
+++ b/smdiff-vcdiff/src/lib.rs
@@ -38,6 +38,10 @@ pub fn convert_vcdiff_to_smdiff<R: std::io::Read+Seek, W: std::io::Write>(reader
                 end_of_windows = ws.end_of_window();
                 end_of_window_output = ws.size_of_the_target_window.saturating_add(cur_o_pos);
                 if ws.win_indicator == WinIndicator::VCD_TARGET{
+                    let segment_end = ssp.unwrap_or(0).saturating_add(ws.source_segment_size.unwrap_or(0));
+                    if segment_end > cur_o_pos{
+                        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "VCDIFF window copies output of windows that follow it"));
+                    }
                     vcd_trgt = true;
                 }
             },
-- 
2.43.0

