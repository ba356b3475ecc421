From cf48bb1993c6cfab90b726cda248402ae0fdb0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 1/9] fix: report IntegerUnderflow for a truncated HPACK
 integer instead of panicking

---
 hpack/src/decoder/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 77d4cbd..578dd7e 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -67,7 +67,7 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 
     let mut shift = 0;
     loop {
-        let byte = if buf.is_empty() {
+        let byte = if total >= buf.len() {
             return Err(DecoderError::IntegerUnderflow);
         } else {
             total += 1;
-- 
2.43.0


From 0b689374f5e45047d0aaf400d7ea9b7d4f1b5c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 2/9] fix: report IntegerUnderflow for a missing HPACK string
 instead of panicking

---
 hpack/src/decoder/primitives.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 578dd7e..2e29d86 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -105,6 +105,9 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 /// 
 /// [5.2.]: https://tools.ietf.org/html/rfc7541#section-5.2
 pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> Result<usize, DecoderError> {
+    if buf.is_empty() {
+        return Err(DecoderError::IntegerUnderflow);
+    }
     let huffman = buf[0] & 128 == 128;
 
     let mut len = 0;
-- 
2.43.0


From 5ba645c24b038acea36dedd6bef4e159fde2646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 3/9] fix: count size update octets in the total returned by
 the HPACK decoder

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 8f4f2b2..470ff74 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -155,7 +155,7 @@ impl<'a> Decoder<'a> {
             } else if octet & 64 == 64 { // with indexing
                 total += self.decode_literal(buf, dst)?;
             } else if octet & 32 == 32 {
-                self.update_max_dynamic_size(buf)?;
+                total += self.update_max_dynamic_size(buf)?;
             } else if octet & 16 == 16 { // never indexed
                 total += self.decode_literal(buf, dst)?;
             } else { // without indexing
-- 
2.43.0


From 83403f9bf61a0ef5b263cd5d39d6a45154d7721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 4/9] fix: report the limit set by the user from the HPACK
 decoder's max_dynamic_size

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 470ff74..6657d64 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -64,7 +64,7 @@ impl<'a> Decoder<'a> {
     /// Note that the dynamic table could actually be of different size. This
     /// size is just a hard limit set by the external protocol.
     pub fn max_dynamic_size(&self) -> u32 {
-        self.table.max_dynamic_size()
+        self.max_dynamic_size
     }
 
     /// Sets the maximum allowed size of the dynamic table.
-- 
2.43.0


From 8fc135365d6443baf6617d28643a0972a3932508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 5/9] fix: keep never-indexed fields literal when the best
 format is requested

---
 hpack/src/encoder/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index 83f48e7..a7ed8a7 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -156,10 +156,10 @@ impl<'a> Encoder<'a> {
             EncoderInput::Literal(name, value, flags) => {
                 if flags & 0x10 == 0x10 {
                     match self.table.find(&name, &value) {
-                        Some((index, true)) => {
+                        Some((index, true)) if flags & 0xC != 0x8 => {
                             self.encode_indexed(index as u32, dst)
                         },
-                        Some((index, false)) => {
+                        Some((index, _)) => { // name match or never indexed
                             self.encode_indexed_name(index as u32, value, flags, dst)
                         },
                         None => {
-- 
2.43.0


From e8eb4765c20940855c5315b99c156aa20ba8ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 6/9] fix: reject Huffman padding that is not all ones

---
 huffman/src/decoder/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huffman/src/decoder/reader.rs b/huffman/src/decoder/reader.rs
index 2743d07..be93bb3 100644
--- a/huffman/src/decoder/reader.rs
+++ b/huffman/src/decoder/reader.rs
@@ -87,7 +87,7 @@ impl DecodeReader {
         self.buf = 0;
         self.buf_size = 0;
 
-        if !vec![0, 1, 3, 7, 15, 31, 63, 127].iter().any(|p| *p == self.tail) { // validate padding
+        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 { // validate padding
             return Err(DecoderError::InvalidInput);
         }
 
-- 
2.43.0


From 26fcd74270aab2a0e13b1ae473aaca09b2ada896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 7/9] fix: reject protobuf varints longer than ten bytes

---
 protos/src/decoder/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 47ca7d8..2a93a44 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -40,6 +40,8 @@ pub fn decode_varint(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError> {
         if byte <= 0x7F {
             *dst = value;
             return Ok(count);
+        } else if count == 10 { // a 64-bit integer has at most 10 bytes
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
@@ -627,6 +629,8 @@ pub fn extract_varint(
         if byte <= 0x7F {
             dst.append(&mut bytes);
             return Ok(count);
+        } else if count == 10 { // a 64-bit integer has at most 10 bytes
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
-- 
2.43.0


From 2d5759d2691ebdd118089062d50808cd5299448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:29 +0000
Subject: [PATCH 8/9] fix: keep decoding after an empty length-delimited
 protobuf field

---
 protos/src/decoder/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protos/src/decoder/mod.rs b/protos/src/decoder/mod.rs
index e84cdab..dc28f86 100644
--- a/protos/src/decoder/mod.rs
+++ b/protos/src/decoder/mod.rs
@@ -76,6 +76,7 @@ impl Decoder {
         let mut total = 0;
         loop {
             let mut _size = 0;
+            let count = dst.len();
             match self.key.1 {
                 Typ::Unknown => {
                     _size = self.decode_key(buf)?;
@@ -93,7 +94,7 @@ impl Decoder {
                     _size = self.extract_ld(buf, dst)?;
                 },
             }
-            if _size == 0 {
+            if _size == 0 && dst.len() == count { // an empty field is progress too
                 break;
             }
             total += _size;
-- 
2.43.0


From 8f8ffd368f9f928bac420c1723b46aa3d9aa453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 9/9] fix: truncate sint64 varints to 32 bits when decoded as
 sint32

---
 protos/src/decoder/primitives.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 2a93a44..c064c95 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -274,6 +274,7 @@ pub fn decode_uint64_vec(
 pub fn decode_sint32(buf: &[u8], dst: &mut i32) -> Result<usize, DecoderError> {
     let mut val = 0;
     let size = decode_varint(buf, &mut val)?;
+    let val = val as u32; // wider values are truncated before the zigzag is undone
     *dst = ((val >> 1) as i32) ^ (-((val & 1) as i32));
     Ok(size)
 }
-- 
2.43.0

