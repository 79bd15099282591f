From de68edd359ad6c460daef838ee555f5a44f03008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 01/60] fix: align nested enum payloads in the binary record
 layout

A variable-size field was placed right after the previous one even when the
payload's own layout needs a larger alignment, so its fields were read and
written through misaligned pointers.
---
 src/core/marshaller.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 50675d4..340124d 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -410,6 +410,8 @@ impl Layout {
         let mut offset = self.var_field_offset;
 
         for var_size_field in &self.var_size_fields[0..var_size_field_index] {
+            offset = util::align(offset, var_size_field.alignment());
+
             // determine the size of the variable length field and add it to offset
             let tag_field = &self.fixed_size_fields[var_size_field.fixed_field_index];
 
@@ -479,7 +481,11 @@ impl Layout {
             }
         }
 
-        offset
+        // the field itself starts at its own alignment
+        match self.var_size_fields.get(var_size_field_index) {
+            Some(field) => util::align(offset, field.alignment()),
+            None => offset,
+        }
     }
 
     fn encoding_size(&self, data: &[u8]) -> usize {
@@ -496,6 +502,8 @@ impl Layout {
         let mut offset = self.var_field_offset;
 
         for field in &self.var_size_fields {
+            offset = util::align(offset, field.alignment());
+
             match &field.kind {
                 VariableSizeFieldKind::String => {
                     let length = source.get_length(&field.path);
@@ -646,6 +654,8 @@ impl Layout {
         }
 
         for field in &self.var_size_fields {
+            offset = util::align(offset, field.alignment());
+
             match &field.kind {
                 VariableSizeFieldKind::String => {
                     let length = source.get_length(&field.path);
-- 
2.43.0


From b05acaa87b3bbb9f57fef5652bf7325a5edef08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:31 +0000
Subject: [PATCH 02/60] fix: enum tags that fill their bit container

The mask of a full-width tag and of an empty tag at the end of a container
overflowed, so records with 129 to 256 case enums could not be encoded.
---
 src/core/marshaller.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 340124d..a8589b5 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -201,6 +201,12 @@ fn unroll_type(
     }
 }
 
+/// Mask covering `num_bits` bits at `bit_offset`; wide enough for fields that
+/// fill their container and for empty fields just past its end
+fn bitfield_mask(num_bits: u8, bit_offset: u8) -> u128 {
+    ((1u128 << num_bits) - 1) << bit_offset
+}
+
 fn primitive_for_bits(num_bits: usize) -> types::Primitive {
     assert!(num_bits <= 128);
 
@@ -554,35 +560,35 @@ impl Layout {
 
                     match primitive {
                         types::Primitive::U8 => unsafe {
-                            let mask = ((1u8 << num_bits) - 1) << bit_offset;
+                            let mask = bitfield_mask(*num_bits, *bit_offset) as u8;
                             let pointer: *mut u8 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
-                                (*pointer & !mask) | (((case_tag as u8) << bit_offset) & mask);
+                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) as u8 & mask);
                         },
                         types::Primitive::U16 => unsafe {
-                            let mask = ((1u16 << num_bits) - 1) << bit_offset;
+                            let mask = bitfield_mask(*num_bits, *bit_offset) as u16;
                             let pointer: *mut u16 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
-                                (*pointer & !mask) | (((case_tag as u16) << bit_offset) & mask);
+                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) as u16 & mask);
                         },
                         types::Primitive::U32 => unsafe {
-                            let mask = ((1u32 << num_bits) - 1) << bit_offset;
+                            let mask = bitfield_mask(*num_bits, *bit_offset) as u32;
                             let pointer: *mut u32 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
-                                (*pointer & !mask) | (((case_tag as u32) << bit_offset) & mask);
+                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) as u32 & mask);
                         },
                         types::Primitive::U64 => unsafe {
-                            let mask = ((1u64 << num_bits) - 1) << bit_offset;
+                            let mask = bitfield_mask(*num_bits, *bit_offset) as u64;
                             let pointer: *mut u64 = mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
-                                (*pointer & !mask) | (((case_tag as u64) << bit_offset) & mask);
+                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) as u64 & mask);
                         },
                         types::Primitive::U128 => unsafe {
-                            let mask = ((1u128 << num_bits) - 1) << bit_offset;
+                            let mask = bitfield_mask(*num_bits, *bit_offset) as u128;
                             let pointer: *mut u128 =
                                 mem::transmute(buffer[field.offset..].as_ptr());
                             *pointer =
-                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) & mask);
+                                (*pointer & !mask) | (((case_tag as u128) << bit_offset) as u128 & mask);
                         },
                         _ => panic!("Invalid bitfield primitive type"),
                     }
-- 
2.43.0


From 6da2ab6fb9e0859543575bb748315b520f6878ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:56 +0000
Subject: [PATCH 03/60] fix: proper prefix test of paths compares with the
 other path

---
 src/core/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/types/mod.rs b/src/core/types/mod.rs
index e872c1a..b430081 100644
--- a/src/core/types/mod.rs
+++ b/src/core/types/mod.rs
@@ -189,7 +189,7 @@ impl Path {
     }
 
     pub fn is_proper_prefix_of(&self, other: &Path) -> bool {
-        if self.0.len() == self.0.len() {
+        if self.0.len() == other.0.len() {
             return false;
         } else {
             self.is_prefix_of(other)
-- 
2.43.0


From 375aea26f73d5c3217f1cdac77023a8c9c95a31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 04/60] fix: refuse a row when the page has no room for its
 directory entry

An empty row was accepted on a full page and its directory entry overwrote
the data of the last row.
---
 src/core/nsm.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 880fa3c..3589364 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -73,6 +73,7 @@ impl PageFormat {
     }
 
     pub fn append_row(&self, page: &mut [u8], row: &[u8]) {
+        assert!(self.has_directory_space(page));
         assert!(row.len() <= self.max_insert_row_size(page));
         let num_rows = self.num_rows(page);
         let aligned_len = util::align(row.len(), self.row_alignment);
@@ -96,6 +97,7 @@ impl PageFormat {
     }
 
     pub fn insert_row(&self, page: &mut [u8], index: usize, row: &[u8]) {
+        assert!(self.has_directory_space(page));
         assert!(row.len() <= self.max_insert_row_size(page));
         let num_rows = self.num_rows(page);
 
@@ -186,6 +188,19 @@ impl PageFormat {
         }
     }
 
+    /// Is there room for the directory entry of another row? The maximum row
+    /// size alone does not tell, as it is 0 in either case once a page is full.
+    fn has_directory_space(&self, page: &[u8]) -> bool {
+        let num_rows = self.num_rows(page);
+        let upper_bound = if num_rows > 0 {
+            self.aligned_row_offset(page, num_rows - 1)
+        } else {
+            page.len()
+        };
+
+        mem::size_of::<Offset>() * (num_rows + 2) <= upper_bound
+    }
+
     fn aligned_row_offset(&self, page: &[u8], index: usize) -> usize {
         assert!(index < self.num_rows(page));
         let offset_value = self.get_row_offset(page, index);
-- 
2.43.0


From f079c3c54e5fdb8f4b85e9d507963573869c2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 05/60] fix: control characters in JSON output

NUL was written as \0, which JSON does not have, and the second hex digit of
\u escapes above 9 was not a hex digit.
---
 src/core/json/encoder.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 2529cf4..fff1121 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -30,13 +30,14 @@ use super::super::types::Path;
 
 // JSON Encoder and Decoder
 
+const HEX_DIGITS: &[u8; 16] = b"0123456789abcdef";
+
 fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     let mut buffer: [u8; 6] = [0; 6];
 
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\0' => writer.write("\\0".as_bytes())?,
         '\\' => writer.write("\\\\".as_bytes())?,
         '/' => writer.write("\\/".as_bytes())?,
         '\"' => writer.write("\\\"".as_bytes())?,
@@ -50,8 +51,8 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[1] = 'u' as u8;
             buffer[2] = '0' as u8;
             buffer[3] = '0' as u8;
-            buffer[4] = ('0' as u8) + (b0 as u8 >> 4);
-            buffer[5] = ('0' as u8) + (b0 as u8 & 0xfu8);
+            buffer[4] = HEX_DIGITS[b0 as usize >> 4];
+            buffer[5] = HEX_DIGITS[b0 as usize & 0xf];
             writer.write(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
-- 
2.43.0


From 774aef04e345e6dd6b9cb250d5b50801a618e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:58 +0000
Subject: [PATCH 06/60] fix: three-byte UTF-8 range in JSON output

Characters U+8000 to U+FFFF were written as overlong four-byte sequences.
---
 src/core/json/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index fff1121..9675451 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -64,7 +64,7 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
             writer.write(&buffer[..2])?
         }
-        b3 if value as u32 >= 0x800 && value as u32 <= 0x7fff => {
+        b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-- 
2.43.0


From 59fe29fcee105b8f6854dd251a574ada9cb24c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 07/60] fix: short writes in JSON output

Escapes and multi-byte characters were cut when the stream accepted only
part of them.
---
 src/core/json/encoder.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 9675451..24abd1e 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -38,14 +38,14 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
     // Special values that need to be escaped
     // encode unicode sequence based on value range
     match value {
-        '\\' => writer.write("\\\\".as_bytes())?,
-        '/' => writer.write("\\/".as_bytes())?,
-        '\"' => writer.write("\\\"".as_bytes())?,
-        '\u{8}' => writer.write("\\b".as_bytes())?,
-        '\u{c}' => writer.write("\\f".as_bytes())?,
-        '\n' => writer.write("\\n".as_bytes())?,
-        '\r' => writer.write("\\r".as_bytes())?,
-        '\t' => writer.write("\\t".as_bytes())?,
+        '\\' => writer.write_all("\\\\".as_bytes())?,
+        '/' => writer.write_all("\\/".as_bytes())?,
+        '\"' => writer.write_all("\\\"".as_bytes())?,
+        '\u{8}' => writer.write_all("\\b".as_bytes())?,
+        '\u{c}' => writer.write_all("\\f".as_bytes())?,
+        '\n' => writer.write_all("\\n".as_bytes())?,
+        '\r' => writer.write_all("\\r".as_bytes())?,
+        '\t' => writer.write_all("\\t".as_bytes())?,
         b0 if 0x1f >= value as u32 => {
             buffer[0] = '\\' as u8;
             buffer[1] = 'u' as u8;
@@ -53,29 +53,29 @@ fn write_ch(writer: &mut dyn io::Write, value: char) -> io::Result<()> {
             buffer[3] = '0' as u8;
             buffer[4] = HEX_DIGITS[b0 as usize >> 4];
             buffer[5] = HEX_DIGITS[b0 as usize & 0xf];
-            writer.write(&buffer[..6])?
+            writer.write_all(&buffer[..6])?
         }
         b1 if 0x7f >= value as u32 => {
             buffer[0] = b1 as u8;
-            writer.write(&buffer[..1])?
+            writer.write_all(&buffer[..1])?
         }
         b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff => {
             buffer[1] = (b2 as u8) & 0x3fu8 | 0x80u8;
             buffer[0] = (b2 as u32 >> 6) as u8 & 0x1fu8 | 0xc0u8;
-            writer.write(&buffer[..2])?
+            writer.write_all(&buffer[..2])?
         }
         b3 if value as u32 >= 0x800 && value as u32 <= 0xffff => {
             buffer[2] = (b3 as u8) & 0x3fu8 | 0x80u8;
             buffer[1] = (b3 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b3 as u32 >> 12) as u8 & 0x0fu8 | 0xe0u8;
-            writer.write(&buffer[..3])?
+            writer.write_all(&buffer[..3])?
         }
         b4 => {
             buffer[3] = (b4 as u8) & 0x3fu8 | 0x80u8;
             buffer[2] = (b4 as u32 >> 6) as u8 & 0x3fu8 | 0x80u8;
             buffer[1] = (b4 as u32 >> 12) as u8 & 0x3fu8 | 0x80u8;
             buffer[0] = (b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8;
-            writer.write(&buffer[..4])?
+            writer.write_all(&buffer[..4])?
         }
     };
     Ok(())
-- 
2.43.0


From efd7086cd0dddd6361ed90b4022f0d13bca56830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:23 +0000
Subject: [PATCH 08/60] fix: non-finite floats in JSON output

They were written as bare NaN and inf, which is not JSON and which the decoder
refuses.
---
 src/core/json/encoder.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/core/json/encoder.rs b/src/core/json/encoder.rs
index 24abd1e..e6bb88b 100644
--- a/src/core/json/encoder.rs
+++ b/src/core/json/encoder.rs
@@ -236,8 +236,6 @@ macro_rules! encoder_emit_primitive {
 
 encoder_emit_primitive!(get_bool, bool);
 encoder_emit_primitive!(get_char, char);
-encoder_emit_primitive!(get_f32, f32);
-encoder_emit_primitive!(get_f64, f64);
 encoder_emit_primitive!(get_u8, u8);
 encoder_emit_primitive!(get_u16, u16);
 encoder_emit_primitive!(get_u32, u32);
@@ -249,6 +247,27 @@ encoder_emit_primitive!(get_i32, i32);
 encoder_emit_primitive!(get_i64, i64);
 encoder_emit_primitive!(get_i128, i128);
 
+// JSON has no numbers for infinities and NaN; they are written as strings, which
+// the decoder accepts for any number
+macro_rules! encoder_emit_float {
+    ($get_primitive:ident, $typ:ident) => {
+        impl JsonEmitter for EmitNumber<$typ> {
+            fn emit(&self, writer: &mut dyn io::Write, source: &dyn DataSource) -> io::Result<()> {
+                let value = source.$get_primitive(&self.path);
+                if value.is_finite() {
+                    write!(writer, "{}", value)?;
+                } else {
+                    write!(writer, "\"{}\"", value)?;
+                }
+                Ok(())
+            }
+        }
+    };
+}
+
+encoder_emit_float!(get_f32, f32);
+encoder_emit_float!(get_f64, f64);
+
 pub struct JsonEncoder {
     emitter: Box<dyn JsonEmitter>,
 }
-- 
2.43.0


From 80c0889aae8b444dddae88a4ef23f995d80b7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:40 +0000
Subject: [PATCH 09/60] fix: Unicode escapes in JSON strings

Non-hexadecimal digits were skipped over, surrogate escapes panicked and
characters beyond the basic plane could not be escaped.
---
 src/core/json/tokenizer.rs | 54 +++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 42bbf1f..977e580 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -109,6 +109,8 @@ use std::str;
 pub type TokenizerError = String;
 pub type TokenizerResult = Result<(), TokenizerError>;
 
+const INVALID_UNICODE_ESCAPE: &str = "Invalid Unicode escape sequence in string value";
+
 #[derive(PartialEq, Eq)]
 pub enum Token {
     Eof,
@@ -223,6 +225,23 @@ impl<'a> Tokenizer<'a> {
         self.advance();
     }
 
+    /// The value of the four hexadecimal digits of a Unicode escape sequence
+    fn hex_digits(&mut self) -> Result<u32, TokenizerError> {
+        let mut char_code = 0u32;
+
+        for _ in 0..4 {
+            match self.look_ahead.and_then(|(_, ch)| ch.to_digit(16)) {
+                Some(digit) => {
+                    char_code = char_code * 16 + digit;
+                    self.advance();
+                }
+                None => return Err(String::from(INVALID_UNICODE_ESCAPE)),
+            }
+        }
+
+        Ok(char_code)
+    }
+
     fn string_control_char(&mut self) -> Result<(), TokenizerError> {
         // eat '\\'
         self.advance();
@@ -239,27 +258,30 @@ impl<'a> Tokenizer<'a> {
             Some((_, 'u')) => {
                 self.advance();
 
-                let mut char_code = 0u32;
+                let mut char_code = self.hex_digits()?;
 
-                // need for hexadecimal digits
-                for _ in 0..4 {
-                    match self.look_ahead {
-                        Some((_, ch)) => {
-                            if let Some(digit) = ch.to_digit(16) {
-                                char_code = char_code * 16 + digit;
-                                self.advance();
-                            }
-                        }
-                        _ => {
-                            return Err(String::from(
-                                "Invalid Unicode escape sequence in string value",
-                            ))
+                // characters beyond 16 bits are represented as a pair of surrogates
+                if char_code & 0xfc00 == 0xd800 {
+                    for expected in &['\\', 'u'] {
+                        match self.look_ahead {
+                            Some((_, ch)) if ch == *expected => self.advance(),
+                            _ => return Err(String::from(INVALID_UNICODE_ESCAPE)),
                         }
                     }
+
+                    let low = self.hex_digits()?;
+
+                    if low & 0xfc00 != 0xdc00 {
+                        return Err(String::from(INVALID_UNICODE_ESCAPE));
+                    }
+
+                    char_code = 0x10000 + ((char_code & 0x3ff) << 10) + (low & 0x3ff);
                 }
 
-                // 16 bit should be the safe range for Unicode characters
-                self.string_buffer.push(char::from_u32(char_code).unwrap());
+                match char::from_u32(char_code) {
+                    Some(ch) => self.string_buffer.push(ch),
+                    None => return Err(String::from(INVALID_UNICODE_ESCAPE)),
+                }
                 Ok(())
             }
             _ => Err(String::from("Invalid escape sequence in string value")),
-- 
2.43.0


From c53334419dd5b75cd40c0228ae729f95b952124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 10/60] fix: a JSON number needs digits after its decimal point

---
 src/core/json/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index 977e580..f9b8609 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -349,7 +349,11 @@ impl<'a> Tokenizer<'a> {
         // check for fractional part
         if let Some((_, '.')) = self.look_ahead {
             self.advance();
-            self.digits();
+
+            match self.look_ahead {
+                Some((_, ch)) if ch.is_digit(10) => self.digits(),
+                _ => return Err(String::from("Invalid fraction format for number")),
+            }
         }
 
         // check for exponent part
-- 
2.43.0


From d5b47cd427861447408e4edd1267ffe3e46af4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 11/60] fix: only the four JSON whitespace characters separate
 tokens

---
 src/core/json/tokenizer.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/core/json/tokenizer.rs b/src/core/json/tokenizer.rs
index f9b8609..e0dd638 100644
--- a/src/core/json/tokenizer.rs
+++ b/src/core/json/tokenizer.rs
@@ -178,11 +178,10 @@ impl<'a> Tokenizer<'a> {
 
     fn skip_whitespace(&mut self) {
         while let Some((_, ch)) = self.look_ahead {
-            if !ch.is_whitespace() {
-                break;
+            match ch {
+                ' ' | '\t' | '\n' | '\r' => self.advance(),
+                _ => break,
             }
-
-            self.advance()
         }
     }
 
-- 
2.43.0


From a5b6d9b6a88bfbf7d2a8ac0b0484a7fcc121085d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 12/60] fix: JSON decoding of structs with 64 or more fields

---
 src/core/json/decoder.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 2fb4f76..5e66409 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -63,7 +63,7 @@ trait BitSet {
 
 impl BitSet for u64 {
     fn new_with_elements(n: usize) -> Self {
-        assert!(n <= 64);
+        assert!(n < 64);
         (1u64 << n) - 1
     }
 
@@ -80,6 +80,25 @@ impl BitSet for u64 {
     }
 }
 
+// Structs with too many fields for a single word
+impl BitSet for Vec<bool> {
+    fn new_with_elements(n: usize) -> Self {
+        vec![true; n]
+    }
+
+    fn clear_element(&mut self, index: usize) {
+        self[index] = false
+    }
+
+    fn has_element(&self, index: usize) -> bool {
+        self[index]
+    }
+
+    fn is_empty(&self) -> bool {
+        !self.contains(&true)
+    }
+}
+
 struct StructParser<T: BitSet> {
     indices: collections::BTreeMap<String, usize>,
     fields: Vec<Box<dyn JsonParser>>,
@@ -479,7 +498,7 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                 .enumerate()
                 .map(|(index, field)| (field.label.clone(), index))
                 .collect();
-            let fields = fields
+            let fields: Vec<Box<dyn JsonParser>> = fields
                 .iter()
                 .enumerate()
                 .map(|(index, field)| {
@@ -487,6 +506,14 @@ fn parser_for_type(prefix: Path, typ: &types::Type) -> Box<dyn JsonParser> {
                     parser_for_type(component_path, &field.typ)
                 })
                 .collect();
+            if fields.len() >= 64 {
+                let struct_parser: StructParser<Vec<bool>> = StructParser {
+                    indices,
+                    fields,
+                    _marker: marker::PhantomData,
+                };
+                return Box::new(struct_parser);
+            }
             let struct_parser: StructParser<u64> = StructParser {
                 indices,
                 fields,
-- 
2.43.0


From 33f58c0664456b979204bc4856cb90817bbe4e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:09 +0000
Subject: [PATCH 13/60] fix: JSON decoder refuses content after the value

---
 src/core/json/decoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/json/decoder.rs b/src/core/json/decoder.rs
index 5e66409..0f162d9 100644
--- a/src/core/json/decoder.rs
+++ b/src/core/json/decoder.rs
@@ -560,7 +560,13 @@ impl JsonDecoder {
     ) -> Result<(), String> {
         let mut tokenizer = tokenizer::Tokenizer::new(input)?;
         result.clear();
-        self.parser.parse(&mut tokenizer, result)
+        self.parser.parse(&mut tokenizer, result)?;
+
+        if tokenizer.token != tokenizer::Token::Eof {
+            return Err(String::from("Unexpected content after the value"));
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 3765b5cce890bb762da7dfd67ff835062804e1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 14/60] fix: a tuple comparison may be null when any component
 may be null

---
 src/sql/ast/typing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 024684f..724c4a0 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -67,7 +67,7 @@ impl ScalarType {
                         } else if item_result.is_err() {
                             item_result
                         } else {
-                            Ok(result.unwrap() & item_result.unwrap())
+                            Ok(result.unwrap() | item_result.unwrap())
                         }
                     })
             }
-- 
2.43.0


From 85081060b4afe92e5d5fe9e5a3294797eb859be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:16 +0000
Subject: [PATCH 15/60] fix: a null test yields a logical value that is never
 null

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 724c4a0..a9aeb44 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -287,7 +287,10 @@ impl Expression {
                         }
                     }
                     &UnaryOperator::IsNull => match expr_type {
-                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(expr_type.clone()),
+                        ScalarType::Scalar { typ: _, is_null: _ } => Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        }),
                         _ => Err(Error::from(
                             "Null test operation can only be applied to scalar type",
                         )),
-- 
2.43.0


From 84eb2d176c502dd5b2bee796482b032dadbbe67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 16/60] fix: IN accepts operands whatever their nullability

---
 src/sql/ast/typing.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index a9aeb44..c6f8c1d 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -624,17 +624,15 @@ impl Expression {
                     ));
                 }
 
-                if expr_type.is_compatible(&ScalarType::Scalar {
+                let is_null = expr_type.is_compatible(&ScalarType::Scalar {
                     typ: set_type.attributes[0].typ,
                     is_null: set_type.attributes[0].is_null,
-                })? {
-                    Ok(ScalarType::Scalar {
-                        typ: types::DataType::Logical,
-                        is_null: false,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types for IN expression"))
-                }
+                })?;
+
+                Ok(ScalarType::Scalar {
+                    typ: types::DataType::Logical,
+                    is_null,
+                })
             }
 
             // nested select statement
-- 
2.43.0


From 2556918a1e6260d2ff4072d4875c121912d6e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 17/60] fix: IN with an empty list no longer panics

---
 src/sql/ast/typing.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index c6f8c1d..664a31c 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -616,6 +616,17 @@ impl Expression {
             // Set membership test; set should evaluate to a row set with a single column
             &Expression::In { ref expr, ref set } => {
                 let expr_type = expr.infer_type(context)?;
+
+                // nothing is a member of the empty list
+                if let &SetSpecification::List(ref values) = set {
+                    if values.is_empty() {
+                        return Ok(ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: false,
+                        });
+                    }
+                }
+
                 let set_type = set.infer_type(&context)?;
 
                 if set_type.attributes.len() != 1 {
-- 
2.43.0


From f7ea4640c60ad072ab02cbb777a7cc565992ced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 18/60] fix: report type errors in CASE guards

---
 src/sql/ast/typing.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 664a31c..dfa6d52 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -495,7 +495,7 @@ impl Expression {
                 ref else_part,
             } => {
                 // All when part clauses must have a guard that evaluates to a logical value
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
 
                     match guard_type {
@@ -505,7 +505,7 @@ impl Expression {
                         } => Ok(()),
                         _ => Err(Error::from("Case guard must evaluate to a logical type")),
                     }
-                });
+                })?;
 
                 // All when part clauses must have a body that evaluates to the same type
                 assert!(when_part.len() >= 1);
@@ -559,17 +559,11 @@ impl Expression {
                 let expr_type = expr.infer_type(&context)?;
 
                 // All when part clauses must have a guard that evaluates to the same type as expr
-                let _ = fold_err((), when_part.iter(), |_, ref clause| {
+                fold_err((), when_part.iter(), |_, ref clause| {
                     let guard_type = clause.guard.infer_type(&context)?;
-
-                    if guard_type.is_compatible(&expr_type)? {
-                        Ok(())
-                    } else {
-                        Err(Error::from(
-                            "Guard expression is incompatible with CASE expression",
-                        ))
-                    }
-                });
+                    guard_type.is_compatible(&expr_type)?;
+                    Ok(())
+                })?;
 
                 // All when part clauses must have a body that evalujates to the same type
                 assert!(when_part.len() >= 1);
-- 
2.43.0


From 82645da978ff9c6a7a8abb3fb2519fafff1cabb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:39 +0000
Subject: [PATCH 19/60] fix: a tuple in a THEN clause is an error, not a panic

---
 src/sql/ast/typing.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index dfa6d52..e196991 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -545,7 +545,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    (_, &ScalarType::Tuple(_)) => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
@@ -603,7 +605,9 @@ impl Expression {
                             is_null: is_null1 | is_null,
                         })
                     }
-                    _ => panic!("Should have covered all cases"),
+                    (_, &ScalarType::Tuple(_)) => Err(Error::from(
+                        "THEN clause must evaluate to scalar expression",
+                    )),
                 }
             }
 
-- 
2.43.0


From f00490a7ea5d877b4c37ed4d8bd547aba37c8650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 20/60] fix: refuse VALUES rows of unequal width

---
 src/sql/ast/typing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index e196991..d828463 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -957,6 +957,12 @@ impl SetExpression {
                 // Validate other rows and unify into the result type
                 let component_types =
                     fold_err(component_types, (&rows[1..]).iter(), |types, vals| {
+                        if types.len() != vals.len() {
+                            return Err(Error::from(
+                                "All rows need to have the same number of columns",
+                            ));
+                        }
+
                         fold_err(
                             Vec::new(),
                             types.iter().zip(vals.iter()),
-- 
2.43.0


From 3f25429c4b9ba12f5a0a32dd573db9dfadc366ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 21/60] fix: refuse set operations on operands of unequal width

---
 src/sql/ast/typing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index d828463..b954ccd 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1069,6 +1069,12 @@ impl SetExpression {
                 let left_type = left.infer_type(context)?;
                 let right_type = right.infer_type(context)?;
 
+                if left_type.attributes.len() != right_type.attributes.len() {
+                    return Err(Error::from(
+                        "Operands of a set operation need to have the same number of columns",
+                    ));
+                }
+
                 // unify columns by position
                 let attributes = fold_err(
                     Vec::new(),
-- 
2.43.0


From a5210b122dc2e822aa43c03357a4e6e8db71c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:20 +0000
Subject: [PATCH 22/60] fix: common table expressions can be used in the query
 they belong to

---
 src/sql/ast/typing.rs | 57 ++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index b954ccd..9a3db63 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -792,7 +792,9 @@ where
     }
 }
 
+#[derive(Clone)]
 struct ObjectTypes(collections::BTreeMap<symbols::Name, RowType>);
+#[derive(Clone)]
 struct Namespaces(collections::BTreeMap<symbols::Name, ObjectTypes>);
 
 impl<T> From<T> for ObjectTypes
@@ -833,6 +835,7 @@ where
 
 /// A context of bindings used to evaluate a type; for set expressions, we are interested in bindings
 /// of identifiers for relations.
+#[derive(Clone)]
 pub struct SetContext {
     // need a reference to a database
     namespaces: Namespaces,
@@ -853,16 +856,6 @@ impl SetContext {
         }
     }
 
-    fn define_relation(&mut self, name: symbols::Name, typ: RowType) -> Result<(), Error> {
-        match self.table_expression.insert(name.clone(), typ) {
-            None => Ok(()),
-            Some(_) => Err(Error::from(format!(
-                "Duplicate name '{}' for common table expression",
-                name
-            ))),
-        }
-    }
-
     fn resolve_table_name<'b>(
         &'b self,
         qualified_name: &[symbols::Name],
@@ -912,20 +905,27 @@ impl SetContext {
         }
     }
 
-    // Convenience function to construct SetContext from Database and iterator over common table expressions
-    fn initialize<'c, I>(
-        database: &schema::Database,
-        default_schema: symbols::Name,
-        cte: I,
-    ) -> Result<Self, Error>
-    where
-        I: iter::IntoIterator<Item = &'c CommonTableExpression>,
-    {
-        let mut result = Self::new(database, default_schema);
-
-        for item in cte {
+    // Construct the context that results from defining common table expressions in this context; they
+    // hide relations of the same name that were defined further outside
+    fn with_common_table_expressions(
+        &self,
+        common: &[CommonTableExpression],
+    ) -> Result<Self, Error> {
+        let mut result = self.clone();
+        let mut names = collections::BTreeSet::new();
+
+        for item in common {
+            if !names.insert(&item.identifier) {
+                return Err(Error::from(format!(
+                    "Duplicate name '{}' for common table expression",
+                    item.identifier
+                )));
+            }
+
             let row_type = item.infer_type(&result)?;
-            result.define_relation(item.identifier.clone(), row_type)?;
+            result
+                .table_expression
+                .insert(item.identifier.clone(), row_type);
         }
 
         Ok(result)
@@ -1356,13 +1356,10 @@ impl Statement {
 
 impl SelectStatement {
     fn infer_type(&self, context: &SetContext) -> Result<RowType, Error> {
-        let mut scalar_context = ScalarContext::new(context);
-
-        // common table expression; validate type of each expression and build up a ScalarConext
-        for ref cte in &self.common {
-            let cte_type = cte.infer_type(context)?;
-            scalar_context.add_relation(cte.identifier.clone(), cte_type.attributes)?;
-        }
+        // common table expressions; validate type of each expression and make them available to the
+        // remainder of the statement
+        let context = &context.with_common_table_expressions(&self.common)?;
+        let scalar_context = ScalarContext::new(context);
 
         // set expression
         let result_type = self.expr.infer_type(context)?;
-- 
2.43.0


From d792ef02072acad049b3986aab8834d51bddd25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:46 +0000
Subject: [PATCH 23/60] fix: keep the WITH clause of INSERT, DELETE and UPDATE
 statements

---
 src/sql/ast/mod.rs     |  9 +++++++++
 src/sql/ast/typing.rs  | 15 ++++++++++++---
 src/sql/parser.lalrpop | 12 ++++++------
 src/sql/parser.rs      | 14 +++++++-------
 4 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/sql/ast/mod.rs b/src/sql/ast/mod.rs
index c6ec8d7..57a793e 100644
--- a/src/sql/ast/mod.rs
+++ b/src/sql/ast/mod.rs
@@ -61,6 +61,9 @@ pub enum Statement {
 
 /// Representation of an insert statement
 pub struct InsertStatement {
+    /// 0 or more common table expressions, that can be referenced within this statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table into which we want to insert new values
     pub table_name: Vec<symbols::Name>,
 
@@ -104,6 +107,9 @@ pub struct SelectStatement {
 
 /// Represenatation of a delete statement
 pub struct DeleteStatement {
+    /// 0 or more common table expressions, that can be referenced within this statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the name of the table from which rows should be deleted
     pub table_name: Vec<symbols::Name>,
 
@@ -113,6 +119,9 @@ pub struct DeleteStatement {
 
 /// Representation of an update statement
 pub struct UpdateStatement {
+    /// 0 or more common table expressions, that can be referenced within this statement
+    pub common: Vec<CommonTableExpression>,
+
     /// the qualified table name
     pub table_name: Vec<symbols::Name>,
 
diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9a3db63..cd7a65c 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1380,6 +1380,9 @@ impl SelectStatement {
 
 impl InsertStatement {
     fn validate_type(&self, context: &SetContext) -> Result<(), Error> {
+        // common table expressions are available to the expressions and queries of this statement
+        let statement_context = &context.with_common_table_expressions(&self.common)?;
+
         let row_type = context.resolve_table_name(&self.table_name)?;
         let mut row_type_map: collections::BTreeMap<symbols::Name, (types::DataType, bool)> =
             row_type
@@ -1388,7 +1391,7 @@ impl InsertStatement {
                 .map(|attribute| (attribute.name.clone(), (attribute.typ, attribute.is_null)))
                 .collect();
 
-        let values_type = self.source.infer_type(&context)?;
+        let values_type = self.source.infer_type(statement_context)?;
 
         match &self.columns {
             &None => {
@@ -1464,6 +1467,9 @@ impl InsertStatement {
 
 impl UpdateStatement {
     fn validate_type(&self, context: &SetContext) -> Result<(), Error> {
+        // common table expressions are available to the expressions and queries of this statement
+        let statement_context = &context.with_common_table_expressions(&self.common)?;
+
         // validate that the table name exists in the schema. If not => error
         let row_type = context.resolve_table_name(&self.table_name)?;
         let row_type_map: collections::BTreeMap<symbols::Name, (types::DataType, bool)> = row_type
@@ -1473,7 +1479,7 @@ impl UpdateStatement {
             .collect();
 
         let identifier = self.table_name.last().unwrap().clone();
-        let mut scalar_context = ScalarContext::new(&context);
+        let mut scalar_context = ScalarContext::new(statement_context);
 
         scalar_context.add_relation(identifier, row_type.attributes.clone())?;
         let mut assigned_columns = collections::BTreeSet::new();
@@ -1532,10 +1538,13 @@ impl UpdateStatement {
 
 impl DeleteStatement {
     fn validate_type(&self, context: &SetContext) -> Result<(), Error> {
+        // common table expressions are available to the expressions and queries of this statement
+        let statement_context = &context.with_common_table_expressions(&self.common)?;
+
         // validate that the table name exists in the schema. If not => error
         let row_type = context.resolve_table_name(&self.table_name)?;
         let identifier = self.table_name.last().unwrap().clone();
-        let mut scalar_context = ScalarContext::new(&context);
+        let mut scalar_context = ScalarContext::new(statement_context);
         scalar_context.add_relation(identifier, row_type.attributes.clone())?;
 
         match &self.where_expr {
diff --git a/src/sql/parser.lalrpop b/src/sql/parser.lalrpop
index c8bc9f4..54a2b9d 100644
--- a/src/sql/parser.lalrpop
+++ b/src/sql/parser.lalrpop
@@ -149,8 +149,8 @@ Statement: ast::Statement = {
 };
 
 InsertStatement: ast::InsertStatement = {
-    TableExpressions? "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
-        ast::InsertStatement { table_name, columns, source }, 
+    <ctl:TableExpressions?> "INSERT" "INTO" <table_name:QualifiedIdentifier> <columns:ColumnNameList?> <source:SelectCore> =>
+        ast::InsertStatement { common: ctl.unwrap_or(Vec::new()), table_name, columns, source }, 
 };
 
 ColumnNameList: Vec<symbols::Name> = {
@@ -158,14 +158,14 @@ ColumnNameList: Vec<symbols::Name> = {
 };
 
 DeleteStatement: ast::DeleteStatement = {
-    TableExpressions? "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
-        ast::DeleteStatement { table_name, where_expr },
+    <ctl:TableExpressions?> "DELETE" "FROM" <table_name:QualifiedIdentifier> <where_expr:WhereClause?> =>
+        ast::DeleteStatement { common: ctl.unwrap_or(Vec::new()), table_name, where_expr },
 };
 
 UpdateStatement: ast::UpdateStatement = {
-    TableExpressions? "UPDATE" <table_name:QualifiedIdentifier> 
+    <ctl:TableExpressions?> "UPDATE" <table_name:QualifiedIdentifier> 
     "SET" <assignments: Assignments> <where_expr:WhereClause?> =>
-        ast::UpdateStatement { table_name, assignments, where_expr },
+        ast::UpdateStatement { common: ctl.unwrap_or(Vec::new()), table_name, assignments, where_expr },
 };
 
 Assignments: Vec<ast::Assignment> = {
diff --git a/src/sql/parser.rs b/src/sql/parser.rs
index 8562621..7490a98 100644
--- a/src/sql/parser.rs
+++ b/src/sql/parser.rs
@@ -1,5 +1,5 @@
 // auto-generated: "lalrpop 0.19.8"
-// sha3: f07b7b47a234d3ec455d58d940e87f91caed3ef7e8b156e9294fa4968754242f
+// sha3: cce579156bc29dcba1256e154cb3403dca3f6537adbe6e1e70cebcd3ffabd328
 use super::ast;
 use super::symbols;
 #[allow(unused_extern_crates)]
@@ -7638,7 +7638,7 @@ fn __action9<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, ctl, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
@@ -7646,7 +7646,7 @@ fn __action9<
     (_, source, _): (usize, Box<ast::SetExpression>, usize),
 ) -> ast::InsertStatement
 {
-    ast::InsertStatement { table_name, columns, source }
+    ast::InsertStatement { common: ctl.unwrap_or(Vec::new()), table_name, columns, source }
 }
 
 #[allow(unused_variables)]
@@ -7667,14 +7667,14 @@ fn __action11<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, ctl, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::DeleteStatement
 {
-    ast::DeleteStatement { table_name, where_expr }
+    ast::DeleteStatement { common: ctl.unwrap_or(Vec::new()), table_name, where_expr }
 }
 
 #[allow(unused_variables)]
@@ -7682,7 +7682,7 @@ fn __action12<
     'input,
 >(
     input: &'input str,
-    (_, _, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
+    (_, ctl, _): (usize, core::option::Option<Vec<ast::CommonTableExpression>>, usize),
     (_, _, _): (usize, &'input str, usize),
     (_, table_name, _): (usize, Vec<symbols::Name>, usize),
     (_, _, _): (usize, &'input str, usize),
@@ -7690,7 +7690,7 @@ fn __action12<
     (_, where_expr, _): (usize, core::option::Option<Box<ast::Expression>>, usize),
 ) -> ast::UpdateStatement
 {
-    ast::UpdateStatement { table_name, assignments, where_expr }
+    ast::UpdateStatement { common: ctl.unwrap_or(Vec::new()), table_name, assignments, where_expr }
 }
 
 #[allow(unused_variables)]
-- 
2.43.0


From 6aceb53cdccee9d3253614c7bc727f2bb4cd9ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:05 +0000
Subject: [PATCH 24/60] fix: t.* yields the columns in table order

---
 src/sql/ast/typing.rs | 53 ++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index cd7a65c..9e71324 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -126,8 +126,8 @@ enum ScalarContextSymbol {
     // a conflict of attribute from different relations
     AttributeConflict,
 
-    // a relation with its constituent attributes
-    Relation(collections::BTreeMap<symbols::Name, ScalarType>),
+    // a relation with its constituent attributes, in the order in which it defines them
+    Relation(Vec<Attribute>),
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -173,19 +173,6 @@ impl<'a> ScalarContext<'a> {
         }
 
         // add the relationship entry
-        let map: collections::BTreeMap<symbols::Name, ScalarType> = attributes
-            .into_iter()
-            .map(|attribute| {
-                (
-                    attribute.name,
-                    ScalarType::Scalar {
-                        typ: attribute.typ,
-                        is_null: attribute.is_null,
-                    },
-                )
-            })
-            .collect();
-
         match self.symbols.get(&name) {
             Some(&ScalarContextSymbol::Relation(_)) => {
                 Err(Error::from(format!("Duplicate relation name '{}'", &name)))
@@ -193,7 +180,7 @@ impl<'a> ScalarContext<'a> {
             _ => {
                 mem::drop(
                     self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(map)),
+                        .insert(name, ScalarContextSymbol::Relation(attributes)),
                 );
                 Ok(())
             }
@@ -219,8 +206,12 @@ impl<'a> ScalarContext<'a> {
             },
             2 => match self.symbols.get(&qualified_name[0]) {
                 Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
-                    .get(&qualified_name[1])
-                    .map(|t| t.clone())
+                    .iter()
+                    .find(|attribute| attribute.name == qualified_name[1])
+                    .map(|attribute| ScalarType::Scalar {
+                        typ: attribute.typ,
+                        is_null: attribute.is_null,
+                    })
                     .ok_or_else(|| {
                         Error::from(format!(
                             "Name '{}' does not refer to an attribute of relation '{}'",
@@ -1160,24 +1151,14 @@ impl ResultColumns {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
                         Some(&ScalarContextSymbol::Relation(ref fields)) => {
-                            for (ref name, ref scalar) in fields {
-                                match *scalar {
-                                    &ScalarType::Scalar {
-                                        ref typ,
-                                        ref is_null,
-                                    } => {
-                                        let result_name =
-                                            generate_column_name(name, &mut generated_columns);
-                                        result_attributes.push(Attribute {
-                                            name: result_name,
-                                            typ: typ.clone(),
-                                            is_null: *is_null,
-                                        });
-                                    }
-                                    _ => panic!(
-                                        "Attributes of a schema object should be scalar values"
-                                    ),
-                                }
+                            for attribute in fields {
+                                let result_name =
+                                    generate_column_name(&attribute.name, &mut generated_columns);
+                                result_attributes.push(Attribute {
+                                    name: result_name,
+                                    typ: attribute.typ,
+                                    is_null: attribute.is_null,
+                                });
                             }
                         }
                         Some(_) => {
-- 
2.43.0


From d2d682e58a6684730ff46b5c59f50f04acb37126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:39 +0000
Subject: [PATCH 25/60] fix: a relation no longer hides a column of the same
 name

---
 src/sql/ast/typing.rs | 44 +++++++++++++++----------------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 9e71324..b2d4d25 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -125,9 +125,6 @@ enum ScalarContextSymbol {
 
     // a conflict of attribute from different relations
     AttributeConflict,
-
-    // a relation with its constituent attributes, in the order in which it defines them
-    Relation(Vec<Attribute>),
 }
 
 /// A context of bindings used to evaluate a type; for scalars, we are interested in bindings for
@@ -136,8 +133,12 @@ pub struct ScalarContext<'a> {
     // reference to an underlying SetContext
     set_context: &'a SetContext,
 
-    // need a way to capture qualified attributes and attributes without qualification
+    // attributes that can be referred to without qualification
     symbols: collections::BTreeMap<symbols::Name, ScalarContextSymbol>,
+
+    // relations with their constituent attributes, in the order in which they define them; a relation
+    // and an attribute may have the same name
+    relations: collections::BTreeMap<symbols::Name, Vec<Attribute>>,
 }
 
 impl<'a> ScalarContext<'a> {
@@ -145,6 +146,7 @@ impl<'a> ScalarContext<'a> {
         ScalarContext {
             set_context,
             symbols: collections::BTreeMap::new(),
+            relations: collections::BTreeMap::new(),
         }
     }
 
@@ -168,20 +170,14 @@ impl<'a> ScalarContext<'a> {
                     ScalarContextSymbol::AttributeConflict,
                 )),
                 Some(&ScalarContextSymbol::AttributeConflict) => (),
-                Some(&ScalarContextSymbol::Relation(_)) => (),
             }
         }
 
         // add the relationship entry
-        match self.symbols.get(&name) {
-            Some(&ScalarContextSymbol::Relation(_)) => {
-                Err(Error::from(format!("Duplicate relation name '{}'", &name)))
-            }
-            _ => {
-                mem::drop(
-                    self.symbols
-                        .insert(name, ScalarContextSymbol::Relation(attributes)),
-                );
+        match self.relations.get(&name) {
+            Some(_) => Err(Error::from(format!("Duplicate relation name '{}'", &name))),
+            None => {
+                mem::drop(self.relations.insert(name, attributes));
                 Ok(())
             }
         }
@@ -199,13 +195,9 @@ impl<'a> ScalarContext<'a> {
                     "Ambiguous attribute name '{}'",
                     &qualified_name[0]
                 ))),
-                Some(&ScalarContextSymbol::Relation(_)) => Err(Error::from(format!(
-                    "Name '{}' refers to a relation",
-                    &qualified_name[0]
-                ))),
             },
-            2 => match self.symbols.get(&qualified_name[0]) {
-                Some(&ScalarContextSymbol::Relation(ref attributes)) => attributes
+            2 => match self.relations.get(&qualified_name[0]) {
+                Some(attributes) => attributes
                     .iter()
                     .find(|attribute| attribute.name == qualified_name[1])
                     .map(|attribute| ScalarType::Scalar {
@@ -218,7 +210,7 @@ impl<'a> ScalarContext<'a> {
                             &qualified_name[1], &qualified_name[0]
                         ))
                     }),
-                _ => Err(Error::from(format!(
+                None => Err(Error::from(format!(
                     "Name '{}' does not refer to a relation",
                     &qualified_name[0]
                 ))),
@@ -1146,11 +1138,11 @@ impl ResultColumns {
             },
             &ResultColumns::List(ref column_list) => for column in column_list {
                 match &**column {
-                    &ResultColumn::AllFrom(ref name) => match context.symbols.get(name) {
+                    &ResultColumn::AllFrom(ref name) => match context.relations.get(name) {
                         None => {
                             return Err(Error::from(format!("Undefined collection named {}", name)))
                         }
-                        Some(&ScalarContextSymbol::Relation(ref fields)) => {
+                        Some(fields) => {
                             for attribute in fields {
                                 let result_name =
                                     generate_column_name(&attribute.name, &mut generated_columns);
@@ -1161,12 +1153,6 @@ impl ResultColumns {
                                 });
                             }
                         }
-                        Some(_) => {
-                            return Err(Error::from(format!(
-                                "Symbol {} needs to be a range variable",
-                                name
-                            )))
-                        }
                     },
                     &ResultColumn::Expr {
                         ref expr,
-- 
2.43.0


From 671d9476cb1ae383c600114a62f8203c4d1c3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 26/60] fix: columns of a derived table can be referred to

---
 src/sql/ast/typing.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index b2d4d25..d548d0f 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -150,13 +150,9 @@ impl<'a> ScalarContext<'a> {
         }
     }
 
-    fn add_relation(
-        &mut self,
-        name: symbols::Name,
-        attributes: Vec<Attribute>,
-    ) -> Result<(), Error> {
-        // add the individual attributes
-        for attribute in &attributes {
+    // add attributes that can be referred to without qualification
+    fn add_attributes(&mut self, attributes: &[Attribute]) {
+        for attribute in attributes {
             match self.symbols.get(&attribute.name) {
                 None => mem::drop(self.symbols.insert(
                     attribute.name.clone(),
@@ -172,6 +168,14 @@ impl<'a> ScalarContext<'a> {
                 Some(&ScalarContextSymbol::AttributeConflict) => (),
             }
         }
+    }
+
+    fn add_relation(
+        &mut self,
+        name: symbols::Name,
+        attributes: Vec<Attribute>,
+    ) -> Result<(), Error> {
+        self.add_attributes(&attributes);
 
         // add the relationship entry
         match self.relations.get(&name) {
@@ -1215,9 +1219,19 @@ impl TableExpression {
             }
             &TableExpression::Select {
                 ref select,
-                alias: _,
+                ref alias,
             } => {
                 let row_type = select.infer_type(&context.set_context)?;
+
+                // register the columns in the context; without an alias, they are only accessible
+                // without qualification
+                match alias {
+                    &Some(ref id) => {
+                        context.add_relation(id.clone(), row_type.attributes.clone())?
+                    }
+                    &None => context.add_attributes(&row_type.attributes),
+                }
+
                 Ok((context, row_type.attributes))
             }
             &TableExpression::Join {
-- 
2.43.0


From 6781a10330f806ec36b8483cabf4ca7a96d2df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 27/60] fix: check the constraints of joins

---
 src/sql/ast/typing.rs | 115 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 109 insertions(+), 6 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index d548d0f..576d19c 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -176,8 +176,15 @@ impl<'a> ScalarContext<'a> {
         attributes: Vec<Attribute>,
     ) -> Result<(), Error> {
         self.add_attributes(&attributes);
+        self.add_qualifier(name, attributes)
+    }
 
-        // add the relationship entry
+    // add a relation whose attributes can only be referred to with qualification
+    fn add_qualifier(
+        &mut self,
+        name: symbols::Name,
+        attributes: Vec<Attribute>,
+    ) -> Result<(), Error> {
         match self.relations.get(&name) {
             Some(_) => Err(Error::from(format!("Duplicate relation name '{}'", &name))),
             None => {
@@ -1238,18 +1245,114 @@ impl TableExpression {
                 ref left,
                 ref right,
                 op: _,
-                constraint: _,
+                ref constraint,
             } => {
-                let (left_context, mut attributes) = left.infer_type(context)?;
-                let (result_context, mut right_attributes) = right.infer_type(left_context)?;
+                let set_context = context.set_context;
+                let (left_context, left_attributes) =
+                    left.infer_type(ScalarContext::new(set_context))?;
+                let (right_context, right_attributes) =
+                    right.infer_type(ScalarContext::new(set_context))?;
+
+                let attributes = match constraint {
+                    &JoinConstraint::Columns(ref names) => {
+                        join_using(names, left_attributes, right_attributes)?
+                    }
+                    &JoinConstraint::Expr(_) => {
+                        let mut attributes = left_attributes;
+                        attributes.extend(right_attributes);
+                        attributes
+                    }
+                };
+
+                // the constraint can only refer to the operands of the join
+                let mut join_context = ScalarContext::new(set_context);
+                join_context.add_attributes(&attributes);
+                for (name, fields) in left_context
+                    .relations
+                    .into_iter()
+                    .chain(right_context.relations)
+                {
+                    join_context.add_qualifier(name, fields)?;
+                }
 
-                attributes.append(&mut right_attributes);
-                Ok((result_context, attributes))
+                if let &JoinConstraint::Expr(ref expr) = constraint {
+                    match expr.infer_type(&join_context)? {
+                        ScalarType::Scalar {
+                            typ: types::DataType::Logical,
+                            is_null: _,
+                        } => (),
+                        _ => {
+                            return Err(Error::from(
+                                "ON clause must evaluate to a BOOLEAN predicate",
+                            ))
+                        }
+                    }
+                }
+
+                context.add_attributes(&attributes);
+                for (name, fields) in join_context.relations {
+                    context.add_qualifier(name, fields)?;
+                }
+
+                Ok((context, attributes))
             }
         }
     }
 }
 
+/// Determine the attributes of a join that matches rows on the columns of the given names. These columns
+/// come first and appear only once.
+fn join_using(
+    names: &[symbols::Name],
+    mut left: Vec<Attribute>,
+    mut right: Vec<Attribute>,
+) -> Result<Vec<Attribute>, Error> {
+    let mut result = Vec::new();
+
+    for name in names {
+        let left_attribute = remove_column(name, &mut left)?;
+        let right_attribute = remove_column(name, &mut right)?;
+
+        if left_attribute.typ != right_attribute.typ {
+            return Err(Error::from(format!(
+                "Incompatible types of column '{}' in USING clause",
+                name
+            )));
+        }
+
+        result.push(Attribute {
+            is_null: left_attribute.is_null | right_attribute.is_null,
+            ..left_attribute
+        });
+    }
+
+    result.append(&mut left);
+    result.append(&mut right);
+    Ok(result)
+}
+
+/// Remove the only column of the given name
+fn remove_column(
+    name: &symbols::Name,
+    attributes: &mut Vec<Attribute>,
+) -> Result<Attribute, Error> {
+    let mut indices = (0..attributes.len()).filter(|i| attributes[*i].name == *name);
+    let first = indices.next();
+    let second = indices.next();
+
+    match (first, second) {
+        (Some(index), None) => Ok(attributes.remove(index)),
+        (None, _) => Err(Error::from(format!(
+            "Undefined column '{}' in USING clause",
+            name
+        ))),
+        (Some(_), Some(_)) => Err(Error::from(format!(
+            "Ambiguous column '{}' in USING clause",
+            name
+        ))),
+    }
+}
+
 impl SetSpecification {
     fn infer_type(&self, context: &ScalarContext) -> Result<RowType, Error> {
         match self {
-- 
2.43.0


From 63a1d2618e34f72a9026a62c7013f8d06b5a1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:46 +0000
Subject: [PATCH 28/60] fix: an outer join makes the columns of its optional
 side nullable

---
 src/sql/ast/typing.rs | 45 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 576d19c..6bf9edd 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -194,6 +194,13 @@ impl<'a> ScalarContext<'a> {
         }
     }
 
+    // the relations may not have a matching row
+    fn make_optional(&mut self) {
+        for attributes in self.relations.values_mut() {
+            make_nullable(attributes);
+        }
+    }
+
     fn infer_type(&self, qualified_name: &[symbols::Name]) -> Result<ScalarType, Error> {
         match qualified_name.len() {
             1 => match self.symbols.get(&qualified_name[0]) {
@@ -1244,15 +1251,38 @@ impl TableExpression {
             &TableExpression::Join {
                 ref left,
                 ref right,
-                op: _,
+                ref op,
                 ref constraint,
             } => {
                 let set_context = context.set_context;
-                let (left_context, left_attributes) =
+                let (mut left_context, mut left_attributes) =
                     left.infer_type(ScalarContext::new(set_context))?;
-                let (right_context, right_attributes) =
+                let (mut right_context, mut right_attributes) =
                     right.infer_type(ScalarContext::new(set_context))?;
 
+                // an outer join provides null values in place of the operand that has no matching row
+                let (left_is_optional, right_is_optional) = match op {
+                    &JoinOperator::Join(ref join_type) | &JoinOperator::Natural(ref join_type) => {
+                        match join_type {
+                            &JoinType::Inner => (false, false),
+                            &JoinType::Left => (false, true),
+                            &JoinType::Right => (true, false),
+                            &JoinType::Full => (true, true),
+                        }
+                    }
+                    &JoinOperator::Cross => (false, false),
+                };
+
+                if left_is_optional {
+                    left_context.make_optional();
+                    make_nullable(&mut left_attributes);
+                }
+
+                if right_is_optional {
+                    right_context.make_optional();
+                    make_nullable(&mut right_attributes);
+                }
+
                 let attributes = match constraint {
                     &JoinConstraint::Columns(ref names) => {
                         join_using(names, left_attributes, right_attributes)?
@@ -1300,6 +1330,13 @@ impl TableExpression {
     }
 }
 
+/// Any of the attributes may be null
+fn make_nullable(attributes: &mut Vec<Attribute>) {
+    for attribute in attributes {
+        attribute.is_null = true;
+    }
+}
+
 /// Determine the attributes of a join that matches rows on the columns of the given names. These columns
 /// come first and appear only once.
 fn join_using(
@@ -1321,7 +1358,7 @@ fn join_using(
         }
 
         result.push(Attribute {
-            is_null: left_attribute.is_null | right_attribute.is_null,
+            is_null: left_attribute.is_null & right_attribute.is_null,
             ..left_attribute
         });
     }
-- 
2.43.0


From 64c7682f9587deaf66940225ae91f1ae40f06731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:48 +0000
Subject: [PATCH 29/60] fix: a result column without alias is named after the
 column it shows

---
 src/sql/ast/typing.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 6bf9edd..b793923 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1180,9 +1180,12 @@ impl ResultColumns {
                             return Err(Error::from("Result column needs to be a scalar type"))
                         }
                         ScalarType::Scalar { typ, is_null } => {
-                            let name = match alias {
-                                &None => symbols::Name::from("col"),
-                                &Some(ref name) => name.clone(),
+                            let name = match (alias, &**expr) {
+                                (&Some(ref name), _) => name.clone(),
+                                (&None, &Expression::QualifiedIdentifier(ref qualident)) => {
+                                    qualident.last().unwrap().clone()
+                                }
+                                (&None, _) => symbols::Name::from("col"),
                             };
                             result_attributes.push(Attribute {
                                 name: generate_column_name(&name, &mut generated_columns),
-- 
2.43.0


From d36ccbb2bd334632eeda787a526f36fa06aa1a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 30/60] fix: generated result column names are distinct

---
 src/sql/ast/typing.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index b793923..011a9bd 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1119,9 +1119,20 @@ fn generate_column_name(
 ) -> symbols::Name {
     if generated_names.contains_key(name) {
         let result = {
-            let counter = generated_names.entry(name.clone()).or_insert(0usize);
-            *counter += 1;
-            symbols::Name::from(format!("{}{}", name, *counter))
+            let mut counter = generated_names[name];
+            let mut candidate;
+
+            loop {
+                counter += 1;
+                candidate = symbols::Name::from(format!("{}{}", name, counter));
+
+                if !generated_names.contains_key(&candidate) {
+                    break;
+                }
+            }
+
+            generated_names.insert(name.clone(), counter);
+            candidate
         };
 
         generated_names.insert(result.clone(), 0usize);
-- 
2.43.0


From 54f5f6660504753939e4eb481736c5e7ac6dd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:05 +0000
Subject: [PATCH 31/60] fix: INSERT without a column list assigns values by
 position

---
 src/sql/ast/typing.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 011a9bd..677d1a6 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -1530,27 +1530,22 @@ impl InsertStatement {
 
         match &self.columns {
             &None => {
-                // iterate over the value attriute types, and verify that the
-                // associated type can be assigned to the corresponding column of the table row
-                for ref attribute in &values_type.attributes {
-                    match &row_type_map.get(&attribute.name) {
-                        &None => {
-                            return Err(Error::from(format!(
-                                "Column '{}' not defined in table '{:?}'",
-                                &attribute.name, &self.table_name
-                            )))
-                        }
-                        &Some(&(ref typ, ref is_null)) => {
-                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {
-                                return Err(Error::from(format!(
-                                    "Cannot assign value '{}' to column '{}'",
-                                    attribute.name, attribute.name
-                                )));
-                            }
-                        }
+                // without a column list, values are assigned to the columns of the table by position
+                if values_type.attributes.len() > row_type.attributes.len() {
+                    return Err(Error::from("More values provided than the table has columns"));
+                }
+
+                for (attribute, column) in
+                    values_type.attributes.iter().zip(row_type.attributes.iter())
+                {
+                    if !attribute.is_assignable_to(column) {
+                        return Err(Error::from(format!(
+                            "Cannot assign value '{}' to column '{}'",
+                            attribute.name, column.name
+                        )));
                     }
 
-                    row_type_map.remove(&attribute.name);
+                    row_type_map.remove(&column.name);
                 }
             }
             &Some(ref columns) => {
-- 
2.43.0


From 92f5ebf3b54148bace551cc4e29b303eb2768e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 32/60] fix: a missing default schema is an error, not a panic

---
 src/sql/ast/typing.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 677d1a6..a5c8125 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -871,7 +871,10 @@ impl SetContext {
 
                 // look for the table name within the default schema
                 match self.namespaces.0.get(&self.default_namespace) {
-                    None => panic!("Default namespace not present in database"),
+                    None => Err(Error::from(format!(
+                        "Namespace {} not present in database",
+                        self.default_namespace
+                    ))),
                     Some(ref namespace) => namespace.0.get(&qualified_name[0]).ok_or(Error::from(
                         format!("Table name {} not found in schema", qualified_name[0]),
                     )),
-- 
2.43.0


From 17f79c98404e1295e45746cdb7f0f3e80339b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:27 +0000
Subject: [PATCH 33/60] fix: ORDER BY can refer to result and table columns

---
 src/sql/ast/typing.rs | 53 +++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index a5c8125..3c21af1 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -170,6 +170,15 @@ impl<'a> ScalarContext<'a> {
         }
     }
 
+    // add attributes that take precedence over those of the same name that are already present
+    fn override_attributes(&mut self, attributes: &[Attribute]) {
+        for attribute in attributes {
+            self.symbols.remove(&attribute.name);
+        }
+
+        self.add_attributes(attributes);
+    }
+
     fn add_relation(
         &mut self,
         name: symbols::Name,
@@ -1008,15 +1017,7 @@ impl SetExpression {
                 ref group_by,
             } => {
                 // evaluate from => yielding a ScalarContext
-                let (scalar_context, attributes) = fold_err(
-                    (ScalarContext::new(context), Vec::new()),
-                    from.iter(),
-                    |(context, mut attributes), ref table_expr| {
-                        let (context, mut new_attribiutes) = table_expr.infer_type(context)?;
-                        attributes.append(&mut new_attribiutes);
-                        Ok((context, attributes))
-                    },
-                )?;
+                let (scalar_context, attributes) = infer_from_clause(context, from)?;
 
                 // evaluate where clause
                 match where_expr {
@@ -1116,6 +1117,22 @@ impl SetExpression {
     }
 }
 
+// Evaluate the items of a FROM clause to the bindings and the columns that they provide
+fn infer_from_clause<'a>(
+    context: &'a SetContext,
+    from: &[Box<TableExpression>],
+) -> Result<(ScalarContext<'a>, Vec<Attribute>), Error> {
+    fold_err(
+        (ScalarContext::new(context), Vec::new()),
+        from.iter(),
+        |(context, mut attributes), ref table_expr| {
+            let (context, mut new_attribiutes) = table_expr.infer_type(context)?;
+            attributes.append(&mut new_attribiutes);
+            Ok((context, attributes))
+        },
+    )
+}
+
 fn generate_column_name(
     name: &symbols::Name,
     generated_names: &mut collections::BTreeMap<symbols::Name, usize>,
@@ -1497,19 +1514,27 @@ impl SelectStatement {
         // common table expressions; validate type of each expression and make them available to the
         // remainder of the statement
         let context = &context.with_common_table_expressions(&self.common)?;
-        let scalar_context = ScalarContext::new(context);
 
         // set expression
         let result_type = self.expr.infer_type(context)?;
 
-        // order by
-        for ref iter in &self.order_by {
-            iter.validate_type(&scalar_context)?;
+        // order by; the sort keys can refer to the result columns and, for a plain query, to the tables
+        // that it is based on
+        if !self.order_by.is_empty() {
+            let mut scalar_context = match &*self.expr {
+                &SetExpression::Query { ref from, .. } => infer_from_clause(context, from)?.0,
+                _ => ScalarContext::new(context),
+            };
+            scalar_context.override_attributes(&result_type.attributes);
+
+            for ref iter in &self.order_by {
+                iter.validate_type(&scalar_context)?;
+            }
         }
 
         // limit
         if let &Some(ref limit) = &self.limit {
-            limit.validate_type(&scalar_context.set_context)?;
+            limit.validate_type(context)?;
         }
 
         Ok(result_type)
-- 
2.43.0


From ba6a973e4112a17ef9ee6dfba5376f58a80c0810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 34/60] fix: NULL is compatible with values of every type

---
 src/sql/ast/typing.rs | 85 ++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 46 deletions(-)

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 3c21af1..37c4115 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -31,6 +31,16 @@ pub enum ScalarType {
     Scalar { typ: types::DataType, is_null: bool },
 }
 
+/// The type of values that are of either type, if there is one. Generic values, such as NULL, do not have
+/// any type constraints, so they take on the other type.
+fn unify_data_types(typ1: types::DataType, typ2: types::DataType) -> Option<types::DataType> {
+    match (typ1, typ2) {
+        (types::DataType::Generic, typ) | (typ, types::DataType::Generic) => Some(typ),
+        (typ1, typ2) if typ1 == typ2 => Some(typ1),
+        _ => None,
+    }
+}
+
 impl ScalarType {
     fn is_compatible(&self, other: &ScalarType) -> Result<bool, Error> {
         match (self, other) {
@@ -44,7 +54,7 @@ impl ScalarType {
                     is_null: null2,
                 },
             ) => {
-                if typ1 == typ2 {
+                if unify_data_types(typ1, typ2).is_some() {
                     Ok(null1 | null2)
                 } else {
                     Err(Error::from("Incompatible types"))
@@ -87,13 +97,12 @@ impl ScalarType {
                     is_null: null2,
                 },
             ) => {
-                if typ1 == typ2 {
-                    Ok(ScalarType::Scalar {
-                        typ: typ1.clone(),
+                match unify_data_types(typ1, typ2) {
+                    Some(typ) => Ok(ScalarType::Scalar {
+                        typ,
                         is_null: null1 | null2,
-                    })
-                } else {
-                    Err(Error::from("Incompatible types"))
+                    }),
+                    None => Err(Error::from("Incompatible types")),
                 }
             }
             (&ScalarType::Tuple(ref tuple1), &ScalarType::Tuple(ref tuple2)) => {
@@ -423,7 +432,7 @@ impl Expression {
                                 is_null: null2,
                             },
                         ) => {
-                            if typ1 == typ2 && typ1.is_ordered() {
+                            if unify_data_types(typ1, typ2).map_or(false, |typ| typ.is_ordered()) {
                                 Ok(ScalarType::Scalar {
                                     typ: types::DataType::Logical,
                                     is_null: null1 | null2,
@@ -483,7 +492,10 @@ impl Expression {
                             is_null: null3,
                         },
                     ) => {
-                        if typ1 == typ2 && typ1 == typ3 && typ1.is_ordered() {
+                        let typ = unify_data_types(typ1, typ2)
+                            .and_then(|typ| unify_data_types(typ, typ3));
+
+                        if typ.map_or(false, |typ| typ.is_ordered()) {
                             Ok(ScalarType::Scalar {
                                 typ: types::DataType::Logical,
                                 is_null: null1 | null2 | null3,
@@ -523,16 +535,7 @@ impl Expression {
                 let result_init_type = iter.next().unwrap().body.infer_type(&context)?;
                 let result_type = fold_err(result_init_type, iter, |typ, ref clause| {
                     let body_type = clause.body.infer_type(&context)?;
-                    let is_null1 = body_type.is_compatible(&typ)?;
-                    match body_type {
-                        ScalarType::Tuple(_) => Err(Error::from(
-                            "THEN clause must evaluate to scalar expression",
-                        )),
-                        ScalarType::Scalar { typ, is_null } => Ok(ScalarType::Scalar {
-                            typ,
-                            is_null: is_null | is_null1,
-                        }),
-                    }
+                    typ.unify(&body_type)
                 })?;
 
                 // If the else part is provided, it must be compatible with the type of all the clauses
@@ -547,13 +550,9 @@ impl Expression {
                         typ: typ.clone(),
                         is_null: true,
                     }),
-                    (&Some(ref body), &ScalarType::Scalar { ref typ, is_null }) => {
+                    (&Some(ref body), &ScalarType::Scalar { .. }) => {
                         let body_type = body.infer_type(&context)?;
-                        let is_null1 = body_type.is_compatible(&result_type)?;
-                        Ok(ScalarType::Scalar {
-                            typ: *typ,
-                            is_null: is_null1 | is_null,
-                        })
+                        result_type.unify(&body_type)
                     }
                     (_, &ScalarType::Tuple(_)) => Err(Error::from(
                         "THEN clause must evaluate to scalar expression",
@@ -583,16 +582,7 @@ impl Expression {
                 let result_init_type = iter.next().unwrap().body.infer_type(&context)?;
                 let result_type = fold_err(result_init_type, iter, |typ, ref clause| {
                     let body_type = clause.body.infer_type(&context)?;
-                    let is_null1 = body_type.is_compatible(&typ)?;
-                    match body_type {
-                        ScalarType::Tuple(_) => Err(Error::from(
-                            "THEN clause must evaluate to scalar expression",
-                        )),
-                        ScalarType::Scalar { typ, is_null } => Ok(ScalarType::Scalar {
-                            typ,
-                            is_null: is_null | is_null1,
-                        }),
-                    }
+                    typ.unify(&body_type)
                 })?;
 
                 // If the else part is provided, it must be compatible with the type of all the clauses
@@ -607,13 +597,9 @@ impl Expression {
                         typ: typ.clone(),
                         is_null: true,
                     }),
-                    (&Some(ref body), &ScalarType::Scalar { ref typ, is_null }) => {
+                    (&Some(ref body), &ScalarType::Scalar { .. }) => {
                         let body_type = body.infer_type(&context)?;
-                        let is_null1 = body_type.is_compatible(&result_type)?;
-                        Ok(ScalarType::Scalar {
-                            typ: *typ,
-                            is_null: is_null1 | is_null,
-                        })
+                        result_type.unify(&body_type)
                     }
                     (_, &ScalarType::Tuple(_)) => Err(Error::from(
                         "THEN clause must evaluate to scalar expression",
@@ -759,7 +745,7 @@ struct Attribute {
 
 impl Attribute {
     fn is_assignable_to(&self, other: &Attribute) -> bool {
-        self.typ == other.typ && (other.is_null || !self.is_null)
+        unify_data_types(self.typ, other.typ).is_some() && (other.is_null || !self.is_null)
     }
 }
 
@@ -1384,7 +1370,9 @@ fn join_using(
         let left_attribute = remove_column(name, &mut left)?;
         let right_attribute = remove_column(name, &mut right)?;
 
-        if left_attribute.typ != right_attribute.typ {
+        let typ = unify_data_types(left_attribute.typ, right_attribute.typ);
+
+        if typ.is_none() {
             return Err(Error::from(format!(
                 "Incompatible types of column '{}' in USING clause",
                 name
@@ -1392,8 +1380,9 @@ fn join_using(
         }
 
         result.push(Attribute {
+            name: left_attribute.name,
+            typ: typ.unwrap(),
             is_null: left_attribute.is_null & right_attribute.is_null,
-            ..left_attribute
         });
     }
 
@@ -1595,7 +1584,9 @@ impl InsertStatement {
                             )))
                         }
                         &Some(&(ref typ, ref is_null)) => {
-                            if *typ != attribute.typ || (!*is_null && attribute.is_null) {
+                            if unify_data_types(*typ, attribute.typ).is_none()
+                                || (!*is_null && attribute.is_null)
+                            {
                                 return Err(Error::from(format!(
                                     "Cannot assign value '{}' to column '{}'",
                                     attribute.name, name
@@ -1660,7 +1651,9 @@ impl UpdateStatement {
                             )))
                         }
                         Some(&(ref column_type, ref colummn_is_null)) => {
-                            if *column_type != typ || (is_null && !colummn_is_null) {
+                            if unify_data_types(*column_type, typ).is_none()
+                                || (is_null && !colummn_is_null)
+                            {
                                 return Err(Error::from(format!(
                                     "Assignment incompatible value to column '{}'",
                                     column
-- 
2.43.0


From 6cb7138e5c76aefbee95623e7f78b5227201962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 35/60] hook: entry points into the SQL front end for the
 verification harness

---
 src/sql/ast/typing.rs       |   3 +
 src/sql/ast/typing/verif.rs |  39 +++
 src/sql/mod.rs              |   3 +
 src/sql/verif.rs            | 456 ++++++++++++++++++++++++++++++++++++
 4 files changed, 501 insertions(+)
 create mode 100644 src/sql/ast/typing/verif.rs
 create mode 100644 src/sql/verif.rs

diff --git a/src/sql/ast/typing.rs b/src/sql/ast/typing.rs
index 37c4115..3f0ebee 100644
--- a/src/sql/ast/typing.rs
+++ b/src/sql/ast/typing.rs
@@ -24,6 +24,9 @@ use std::mem;
 
 use super::*;
 
+#[cfg(cathlamet_verif = "sql")]
+pub mod verif;
+
 #[derive(Clone, Debug)]
 pub enum ScalarType {
     Tuple(Vec<ScalarType>),
diff --git a/src/sql/ast/typing/verif.rs b/src/sql/ast/typing/verif.rs
new file mode 100644
index 0000000..f874599
--- /dev/null
+++ b/src/sql/ast/typing/verif.rs
@@ -0,0 +1,39 @@
+//! Entry point for the verification harness; compiled only with `--cfg cathlamet_verif="sql"`.
+
+use super::super::super::verif::Checked;
+use super::*;
+
+pub fn check(
+    database: &schema::Database,
+    default_schema: &str,
+    statement: &SqlStatement,
+) -> Checked {
+    let context = SetContext::new(database, symbols::Name::from(default_schema));
+
+    if let Err(err) = statement.validate_type(&context) {
+        return Checked::Refused(err.to_string());
+    }
+
+    let select = match statement {
+        SqlStatement::Statement(Statement::Select(select)) => select,
+        SqlStatement::ExplainQueryPlan(Statement::Select(select)) => select,
+        _ => return Checked::Accepted(None),
+    };
+
+    match select.infer_type(&context) {
+        Ok(row_type) => Checked::Accepted(Some(
+            row_type
+                .attributes
+                .iter()
+                .map(|attribute| {
+                    (
+                        attribute.name.to_string(),
+                        attribute.typ,
+                        attribute.is_null,
+                    )
+                })
+                .collect(),
+        )),
+        Err(err) => Checked::Refused(err.to_string()),
+    }
+}
diff --git a/src/sql/mod.rs b/src/sql/mod.rs
index 443a2d3..0b6feee 100644
--- a/src/sql/mod.rs
+++ b/src/sql/mod.rs
@@ -28,6 +28,9 @@ mod types;
 mod parser;
 mod symbols;
 
+#[cfg(cathlamet_verif = "sql")]
+pub mod verif;
+
 /// A simple error type for this library
 pub struct Error {
     message: String,
diff --git a/src/sql/verif.rs b/src/sql/verif.rs
new file mode 100644
index 0000000..5ed4069
--- /dev/null
+++ b/src/sql/verif.rs
@@ -0,0 +1,456 @@
+//! Entry points for the verification harness; compiled only with `--cfg cathlamet_verif="sql"`.
+
+use std::cmp::Ordering;
+
+use super::ast::*;
+use super::parser;
+use super::schema;
+use super::symbols::Name;
+use super::types::DataType;
+
+thread_local! {
+    static PARSER: parser::SqlStatementParser = parser::SqlStatementParser::new();
+}
+
+fn parsed(text: &str) -> Result<SqlStatement, String> {
+    PARSER.with(|parser| parser.parse(text).map_err(|err| format!("{:?}", err)))
+}
+
+/// Parse a text and render the resulting statement as S-expression
+pub fn parse(text: &str) -> Result<String, String> {
+    parsed(text).map(|statement| sql_statement(&statement))
+}
+
+//
+// Names
+//
+
+pub fn name_eq(left: &str, right: &str) -> bool {
+    Name::from(left) == Name::from(String::from(right))
+}
+
+pub fn name_ne(left: &str, right: &str) -> bool {
+    Name::from(left) != Name::from(right)
+}
+
+pub fn name_eq_text(left: &str, right: &str) -> bool {
+    Name::from(left) == *right
+}
+
+pub fn name_cmp(left: &str, right: &str) -> Ordering {
+    Name::new(String::from(left)).cmp(&Name::from(right))
+}
+
+pub fn name_partial_cmp(left: &str, right: &str) -> Option<Ordering> {
+    Name::from(left).partial_cmp(&Name::from(right))
+}
+
+pub fn name_partial_cmp_text(left: &str, right: &str) -> Option<Ordering> {
+    Name::from(left).partial_cmp(right)
+}
+
+pub fn name_texts(text: &str) -> [String; 4] {
+    [
+        format!("{}", Name::from(text)),
+        Name::from(String::from(text)).as_str().to_string(),
+        Name::new(String::from(text)).clone().to_string(),
+        format!("{:>12}|{:<3}", Name::from(text), Name::from(text)),
+    ]
+}
+
+//
+// Catalog
+//
+
+#[derive(Clone, Debug, PartialEq)]
+pub struct Column {
+    pub name: String,
+    pub data_type: DataType,
+    pub not_null: bool,
+    pub primary_key: bool,
+}
+
+pub use super::types::DataType as ColumnType;
+
+pub struct Catalog {
+    database: schema::Database,
+}
+
+#[derive(Debug)]
+pub enum Checked {
+    /// the text is not a statement
+    Syntax(String),
+
+    /// the statement is ill-typed
+    Refused(String),
+
+    /// the statement is well-typed; for queries, the result columns (name, type, nullable)
+    Accepted(Option<Vec<(String, DataType, bool)>>),
+}
+
+impl Catalog {
+    pub fn new() -> Self {
+        Catalog {
+            database: schema::Database::new(),
+        }
+    }
+
+    pub fn create_schema(&mut self, name: &str) -> Result<(), String> {
+        self.database
+            .create_schema(&Name::from(name))
+            .map_err(|err| err.to_string())
+    }
+
+    /// Put an object into an existing schema
+    pub fn add_object(&mut self, schema_name: &str, name: &str, columns: &[Column], is_view: bool) {
+        let rows = schema::RowSet {
+            columns: columns
+                .iter()
+                .map(|column| schema::Column {
+                    name: Name::from(column.name.as_str()),
+                    not_null: column.not_null,
+                    primary_key: column.primary_key,
+                    data_type: column.data_type,
+                })
+                .collect(),
+        };
+        let object = if is_view {
+            schema::SchemaObject::View(schema::View {
+                name: Name::from(name),
+                rows,
+                query: String::from("SELECT 1"),
+            })
+        } else {
+            schema::SchemaObject::Table(schema::Table {
+                name: Name::from(name),
+                rows,
+                primary_key: columns
+                    .iter()
+                    .filter(|column| column.primary_key)
+                    .map(|column| Name::from(column.name.as_str()))
+                    .collect(),
+            })
+        };
+        self.database
+            .schemata
+            .get_mut(&Name::from(schema_name))
+            .unwrap()
+            .objects
+            .insert(Name::from(name), object);
+    }
+
+    pub fn describe(&self, schema_name: &str, name: &str) -> Result<Vec<Column>, String> {
+        self.database
+            .describe(&Name::from(schema_name), &Name::from(name))
+            .map(|rows| columns(&rows))
+            .map_err(|err| err.to_string())
+    }
+
+    /// All schemata with their objects, in catalog order
+    pub fn contents(&self) -> Vec<(String, String, Vec<(String, Vec<Column>)>)> {
+        self.database
+            .schemata
+            .iter()
+            .map(|(key, schema)| {
+                (
+                    key.to_string(),
+                    schema.name.to_string(),
+                    schema
+                        .objects
+                        .iter()
+                        .map(|(key, object)| (key.to_string(), columns(object.row_set())))
+                        .collect(),
+                )
+            })
+            .collect()
+    }
+
+    /// Check the type of a statement
+    pub fn check(&self, default_schema: &str, text: &str) -> Checked {
+        match parsed(text) {
+            Ok(statement) => typing::verif::check(&self.database, default_schema, &statement),
+            Err(err) => Checked::Syntax(err),
+        }
+    }
+}
+
+fn columns(rows: &schema::RowSet) -> Vec<Column> {
+    rows.columns
+        .iter()
+        .map(|column| Column {
+            name: column.name.to_string(),
+            data_type: column.data_type,
+            not_null: column.not_null,
+            primary_key: column.primary_key,
+        })
+        .collect()
+}
+
+//
+// Rendering of syntax trees
+//
+
+fn list<T, F: Fn(&T) -> String>(items: &[T], f: F) -> String {
+    format!(
+        "[{}]",
+        items.iter().map(f).collect::<Vec<String>>().join(" ")
+    )
+}
+
+fn opt<T, F: Fn(&T) -> String>(item: &Option<T>, f: F) -> String {
+    match item {
+        Some(item) => f(item),
+        None => String::from("-"),
+    }
+}
+
+fn name(name: &Name) -> String {
+    name.as_str().to_string()
+}
+
+fn names(items: &Vec<Name>) -> String {
+    list(items, name)
+}
+
+fn sql_statement(item: &SqlStatement) -> String {
+    match item {
+        SqlStatement::Statement(item) => statement(item),
+        SqlStatement::ExplainQueryPlan(item) => format!("(explain {})", statement(item)),
+        SqlStatement::Attach(item) => {
+            format!("(attach {:?} {})", item.path, names(&item.qualified_name))
+        }
+        SqlStatement::Describe(item) => format!("(describe {})", names(&item.qualified_name)),
+    }
+}
+
+fn statement(item: &Statement) -> String {
+    match item {
+        Statement::Select(item) => select(item),
+        Statement::Insert(item) => format!(
+            "(insert {} {} {} {})",
+            list(&item.common, cte),
+            names(&item.table_name),
+            opt(&item.columns, names),
+            set(&item.source)
+        ),
+        Statement::Delete(item) => format!(
+            "(delete {} {} {})",
+            list(&item.common, cte),
+            names(&item.table_name),
+            opt(&item.where_expr, |item| expr(item))
+        ),
+        Statement::Update(item) => format!(
+            "(update {} {} {} {})",
+            list(&item.common, cte),
+            names(&item.table_name),
+            list(&item.assignments, |item| format!(
+                "(assign {} {})",
+                names(&item.columns),
+                expr(&item.expr)
+            )),
+            opt(&item.where_expr, |item| expr(item))
+        ),
+    }
+}
+
+fn cte(item: &CommonTableExpression) -> String {
+    format!(
+        "(cte {} {} {})",
+        name(&item.identifier),
+        opt(&item.column_names, names),
+        select(&item.query)
+    )
+}
+
+fn select(item: &SelectStatement) -> String {
+    format!(
+        "(select {} {} {} {})",
+        list(&item.common, cte),
+        set(&item.expr),
+        list(&item.order_by, |item| format!(
+            "(order {} {} {})",
+            expr(&item.expr),
+            opt(&item.collation, name),
+            match item.direction {
+                OrderingDirection::Ascending => "asc",
+                OrderingDirection::Descending => "desc",
+            }
+        )),
+        opt(&item.limit, |item| format!(
+            "(limit {} {})",
+            expr(&item.number_rows),
+            opt(&item.offset_value, |item| expr(item))
+        ))
+    )
+}
+
+fn set(item: &SetExpression) -> String {
+    match item {
+        SetExpression::Values(rows) => {
+            format!("(values {})", list(rows, |row| list(row, |item| expr(item))))
+        }
+        SetExpression::Query {
+            mode,
+            columns,
+            from,
+            where_expr,
+            group_by,
+        } => format!(
+            "(query {} {} {} {} {})",
+            match mode {
+                SelectMode::All => "all",
+                SelectMode::Distinct => "distinct",
+            },
+            match columns {
+                ResultColumns::All => String::from("*"),
+                ResultColumns::List(items) => list(items, |item| match &**item {
+                    ResultColumn::AllFrom(item) => format!("(all-from {})", name(item)),
+                    ResultColumn::Expr { expr: item, rename } =>
+                        format!("(col {} {})", expr(item), opt(rename, name)),
+                }),
+            },
+            list(from, |item| table(item)),
+            opt(where_expr, |item| expr(item)),
+            opt(group_by, |item| format!(
+                "(group {} {})",
+                list(&item.groupings, |item| expr(item)),
+                opt(&item.having, |item| expr(item))
+            ))
+        ),
+        SetExpression::Op { op, left, right } => format!(
+            "({} {} {})",
+            match op {
+                SetOperator::Intersect => "intersect",
+                SetOperator::Except => "except",
+                SetOperator::Union => "union",
+                SetOperator::UnionAll => "union-all",
+            },
+            set(left),
+            set(right)
+        ),
+    }
+}
+
+fn table(item: &TableExpression) -> String {
+    match item {
+        TableExpression::Named { name: item, alias } => {
+            format!("(named {} {})", names(item), opt(alias, name))
+        }
+        TableExpression::Select {
+            select: item,
+            alias,
+        } => format!("(derived {} {})", select(item), opt(alias, name)),
+        TableExpression::Join {
+            left,
+            right,
+            op,
+            constraint,
+        } => format!(
+            "({} {} {} {})",
+            match op {
+                JoinOperator::Join(item) => format!("join-{}", join_type(item)),
+                JoinOperator::Natural(item) => format!("natural-{}", join_type(item)),
+                JoinOperator::Cross => String::from("cross"),
+            },
+            table(left),
+            table(right),
+            match constraint {
+                JoinConstraint::Expr(item) => format!("(on {})", expr(item)),
+                JoinConstraint::Columns(items) => format!("(using {})", names(items)),
+            }
+        ),
+    }
+}
+
+fn join_type(item: &JoinType) -> &'static str {
+    match item {
+        JoinType::Inner => "inner",
+        JoinType::Left => "left",
+        JoinType::Right => "right",
+        JoinType::Full => "full",
+    }
+}
+
+fn expr(item: &Expression) -> String {
+    match item {
+        Expression::Literal(item) => match item {
+            Literal::StringLiteral(text) => format!("{:?}", text),
+            Literal::NumericLiteral(text) => format!("#{}", text),
+            Literal::Null => String::from("null"),
+            Literal::CurrentTime => String::from("current_time"),
+            Literal::CurrentDate => String::from("current_date"),
+            Literal::CurrentTimestamp => String::from("current_timestamp"),
+            Literal::DateLiteral(text) => format!("(date {:?})", text),
+            Literal::TimeLiteral(text) => format!("(time {:?})", text),
+            Literal::TimestampLiteral(text) => format!("(timestamp {:?})", text),
+        },
+        Expression::QualifiedIdentifier(items) => format!("(id {})", names(items)),
+        Expression::MakeTuple(items) => format!("(tuple {})", list(items, |item| expr(item))),
+        Expression::Select(item) => format!("(scalar {})", select(item)),
+        Expression::Unary { op, expr: item } => format!(
+            "({} {})",
+            match op {
+                UnaryOperator::Negate => "neg",
+                UnaryOperator::Not => "not",
+                UnaryOperator::IsNull => "is-null",
+            },
+            expr(item)
+        ),
+        Expression::Binary { op, left, right } => format!(
+            "({} {} {})",
+            match op {
+                BinaryOperator::Multiply => "*",
+                BinaryOperator::Divide => "/",
+                BinaryOperator::Add => "+",
+                BinaryOperator::Subtract => "-",
+                BinaryOperator::Concat => "||",
+                BinaryOperator::And => "and",
+                BinaryOperator::Or => "or",
+            },
+            expr(left),
+            expr(right)
+        ),
+        Expression::Comparison { op, left, right } => format!(
+            "({} {} {})",
+            match op {
+                ComparisonOperator::Equal => "=",
+                ComparisonOperator::NotEqual => "!=",
+                ComparisonOperator::LessThan => "<",
+                ComparisonOperator::LessEqual => "<=",
+                ComparisonOperator::GreaterThan => ">",
+                ComparisonOperator::GreaterEqual => ">=",
+                ComparisonOperator::Like => "like",
+            },
+            expr(left),
+            expr(right)
+        ),
+        Expression::In { expr: item, set } => format!(
+            "(in {} {})",
+            expr(item),
+            match set {
+                SetSpecification::Select(item) => select(item),
+                SetSpecification::List(items) => list(items, |item| expr(item)),
+                SetSpecification::Name(items) => format!("(table {})", names(items)),
+            }
+        ),
+        Expression::Between {
+            expr: item,
+            lower,
+            upper,
+        } => format!("(between {} {} {})", expr(item), expr(lower), expr(upper)),
+        Expression::Case {
+            expr: item,
+            when_part,
+            else_part,
+        } => format!(
+            "(case {} {} {})",
+            opt(item, |item| expr(item)),
+            list(when_part, |item| format!(
+                "(when {} {})",
+                expr(&item.guard),
+                expr(&item.body)
+            )),
+            opt(else_part, |item| expr(item))
+        ),
+    }
+}
-- 
2.43.0


From 48fb4fee529bbeda035b41e198eed8955b51ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 36/60] fix: creating a buffer pool underflows the index of the
 first buffer

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index cd8ef59..a0ba0a4 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -812,7 +812,7 @@ impl BufferPool {
 
         // chain all buffers into a single list
         for index in 0 .. num_buffers {
-            buffers[index].link.prev = (index - 1) as BufferIndex;
+            buffers[index].link.prev = index.wrapping_sub(1) as BufferIndex;
             buffers[index].link.next = (index + 1) as BufferIndex;
         }
 
-- 
2.43.0


From d0198a41c8d9af911424da7978a376e98c01b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 37/60] fix: accessed buffers are kept in the list of buffers
 in use

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a0ba0a4..1633bb5 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -942,7 +942,7 @@ impl BufferPool {
                         let buffers = &mut internal.buffers;
                         available_buffers.list_remove(buffers, index);
 
-                        let in_use_buffers = &mut internal.available_buffers;
+                        let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
                         internal.mapped_locations.insert(location, index as usize);
-- 
2.43.0


From 2e222cab8b32ddb9a1e51077f20919755247a190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 38/60] fix: reusing a buffer drops the mapping of its previous
 page

---
 src/storage/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 1633bb5..c81481c 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -945,10 +945,19 @@ impl BufferPool {
                         let in_use_buffers = &mut internal.in_use_buffers;
                         in_use_buffers.list_push_front(buffers, index);
 
-                        internal.mapped_locations.insert(location, index as usize);
-
                         assert!(buffers[index as usize].access.is_none());
 
+                        // the buffer may still be mapped to the page that it was used for before
+                        let buffer = &mut buffers[index as usize];
+
+                        if buffer.mapped {
+                            internal.mapped_locations.remove(&buffer.location);
+                        }
+
+                        buffer.location = location;
+                        buffer.mapped = true;
+                        internal.mapped_locations.insert(location, index as usize);
+
                         let read_write_locks = &mut internal.read_write_locks;
 
                         let lock = BufferPoolMapping::alloc_lock(read_write_locks);
-- 
2.43.0


From ce0216169011da1a169bf56ff88f266b5b40fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 39/60] fix: accessing a cached page keeps its contents and
 takes it out of the idle lists

---
 src/storage/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index c81481c..a6498b7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -991,12 +991,20 @@ impl BufferPool {
                                     lock,
                                     num_handles: 1
                                 });
-                            
-                            let init_lock = unsafe {
-                                (*lock_ptr).try_write().unwrap()
-                            };
 
-                            break (index, lock_ptr, Some(init_lock));
+                            // the buffer is in use again
+                            let buffers = &mut internal.buffers;
+
+                            if buffers[index as usize].dirty {
+                                internal.dirty_buffers.list_remove(buffers, index as BufferIndex);
+                            } else {
+                                internal.available_buffers.list_remove(buffers, index as BufferIndex);
+                            }
+
+                            internal.in_use_buffers.list_push_front(buffers, index as BufferIndex);
+
+                            // the page is present; it must not be read from external storage again
+                            break (index, lock_ptr, None);
                         },
                         &mut Some(ref mut access) => {
                             let lock_ptr = (&*access.lock) as *const async_std::sync::RwLock<()>;
-- 
2.43.0


From 0aef21eab00c5b34d31e12b01d7fe53db2d06690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 40/60] fix: locks of released buffers are unlocked before they
 are reused

---
 src/storage/mod.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a6498b7..191b0cb 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1019,12 +1019,19 @@ impl BufferPool {
     }
 
     // Return a read-only handle
-    async fn release_read_only<'a>(&'a self, buffer_index: usize) {
+    async fn release_read_only<'a>(
+        &'a self,
+        buffer_index: usize,
+        lock_guard: &mut Option<async_std::sync::RwLockReadGuard<'a, ()>>,
+    ) {
         // because the handle still holds the lock, we are still preventing exclusive
         // write access to this buffer
 
         let internal = &mut *self.mapping.lock().await;
 
+        // the lock may be handed out again as soon as the mapping is released
+        lock_guard.take();
+
         let (BufferAccess { lock, num_handles: _ }, dirty) = {
             let buffer = &mut internal.buffers[buffer_index];
 
@@ -1079,11 +1086,18 @@ impl BufferPool {
     }
 
     // Return a read-write handle
-    async fn release_read_write<'a>(&'a self, buffer_index: usize) {
+    async fn release_read_write<'a>(
+        &'a self,
+        buffer_index: usize,
+        lock_guard: &mut Option<async_std::sync::RwLockWriteGuard<'a, ()>>,
+    ) {
         // because the handle still holds the lock, we still have exclusive access to
         // this buffer
         let internal = &mut *self.mapping.lock().await;
 
+        // the lock may be handed out again as soon as the mapping is released
+        lock_guard.take();
+
         let BufferAccess { lock, num_handles: _ } = {
             let buffer = &mut internal.buffers[buffer_index];
             buffer.dirty = true;
@@ -1245,8 +1259,7 @@ impl <'a> ReadOnlyBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_only(self.buffer_index).await;
-        self.guard.take();
+        self.pool.release_read_only(self.buffer_index, &mut self.guard).await;
     }
 }
 
@@ -1287,8 +1300,7 @@ impl <'a> ReadWriteBufferHandle<'a> {
             panic!("Buffer handle has been released already")
         }
 
-        self.pool.release_read_write(self.buffer_index).await;
-        self.guard.take();
+        self.pool.release_read_write(self.buffer_index, &mut self.guard).await;
     }
 }
 
-- 
2.43.0


From c63839477e509aa9dc36d8da37942ec7aa26daa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 41/60] fix: a buffer that becomes available is announced to
 all waiting requests

---
 src/storage/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 191b0cb..d912acd 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -1055,7 +1055,8 @@ impl BufferPool {
             // to the dirty queue or can become available because it is clean
 
             if !buffer.dirty {
-                self.buffer_available.notify_one();
+                // whoever takes the buffer may map a page that others are waiting for, too
+                self.buffer_available.notify_all();
             } else if !buffer.submitted {
                 self.buffer_dirty.notify_one();
             }
-- 
2.43.0


From e2a3cc4ffe593d16d2687b051c3192b1388dde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 42/60] fix: running out of volume identifiers is an error

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index d912acd..a833fc6 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -380,7 +380,7 @@ impl VolumeManager {
     // generate an internal identifier for the volume to create or attach
     fn next_volume(&mut self) -> errors::Result<VolumeIndex> {
         let current = self.next_volume;
-        let next = current.0 + 1;
+        let next = current.0.wrapping_add(1);
 
         if next < current.0 {
             Err("Cannot allocate more internal volume identifiers".into())
-- 
2.43.0


From 1cf8560caf457950524a0ff21ed338cedb25e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 43/60] fix: default volume parameters use the default block
 size

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index a833fc6..790e0a6 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -200,7 +200,7 @@ pub struct VolumeParameters {
 
 impl VolumeParameters {
     pub fn new_with_defaults(volume_size: u64) -> VolumeParameters {
-        const LOG_BLOCK_SIZE: u64 = (32 - (DEFAULT_VOLUME_BLOCK_SIZE as u32).leading_zeros()) as u64;
+        const LOG_BLOCK_SIZE: u64 = DEFAULT_VOLUME_BLOCK_SIZE.trailing_zeros() as u64;
 
         let block_size = 1u64 << LOG_BLOCK_SIZE;
 
-- 
2.43.0


From 25490ddfa3d51fb0016e720724aa461ec6da2dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 44/60] fix: volume and file headers are smaller than the
 buffer they are written to

---
 src/storage/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 790e0a6..d420828 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -295,7 +295,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
 
     unsafe {
         let file_header_slice = crate::common::any_as_u8_slice(&file_header);
-        buffer.copy_from_slice(&file_header_slice);
+        buffer[.. file_header_size].copy_from_slice(&file_header_slice);
     }
 
     // append file name
@@ -309,7 +309,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
         let name_length_pointer = attribute_slice.as_mut_ptr().add(std::mem::size_of::<u16>());
         assert!(filename.len() <= u8::MAX as usize);
         *name_length_pointer = filename.len() as u8;
-        let name_slice = &mut buffer[offset + 3..];
+        let name_slice = &mut buffer[offset + 3 .. offset + 3 + filename.len()];
         name_slice.copy_from_slice(filename.as_bytes());
         offset = offset + 3 + filename.len();
     }
@@ -468,7 +468,7 @@ impl VolumeManager {
 
             unsafe {
                 let header_data = crate::common::any_as_u8_slice(&volume_header_copy);
-                buffer.copy_from_slice(header_data);
+                buffer[.. header_data.len()].copy_from_slice(header_data);
             }
 
             handle.release().await;
-- 
2.43.0


From 005eff6a70487a39491df6d95fb223c9f25efd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 45/60] fix: creation time of a file with its upper subsecond
 bits set

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index d420828..30ae7c7 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -278,7 +278,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
     let seconds = now.as_secs();
     let nanos = now.subsec_nanos(); 
     // subsec_nanos should return a 30 bit value
-    assert!(nanos & 0xC000 == 0);
+    assert!(nanos & 0xC000_0000 == 0);
     let timestamp = (seconds << 16) | (nanos as u64 >> 14);
 
     let file_header = FileHeader {
-- 
2.43.0


From 674659f907bb8b08457bf4a1a1f6fb942db7c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 46/60] fix: position of the extent list in a file header

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 30ae7c7..eb4befd 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -326,7 +326,7 @@ async fn init_file_header(buffer_pool: &std::sync::Arc<BufferPool>,
             let list_length_pointer = attribute_slice.as_mut_ptr().add(std::mem::size_of::<u16>()) as *mut u16;
             *list_length_pointer = 1u16;
             let extent_offset = utils::align_usize(offset + std::mem::size_of::<u16>() * 2, std::mem::size_of::<u32>());
-            let extent_pointer = attribute_slice.as_mut_ptr().add(extent_offset) as *mut Extent;
+            let extent_pointer = buffer.as_mut_ptr().add(extent_offset) as *mut Extent;
             *extent_pointer = initial_extent;
             offset = extent_offset + std::mem::size_of::<Extent>();
         },
-- 
2.43.0


From d8df3dcea939f0a8ffe98b3aa359618afb68a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 47/60] fix: the allocation bitmap starts behind the file table
 mirror

---
 src/storage/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index eb4befd..4825773 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -401,7 +401,7 @@ impl VolumeManager {
         let file_table_blocks = (file_table_size + block_size - 1) / block_size;
         let file_table_mirror_offset = file_table_offset + (file_table_blocks * block_size) as u64;
         // the file table mirror has the same size as the file table offset
-        let allocation_bitmap_offset = file_table_mirror_offset + file_table_blocks as u64;
+        let allocation_bitmap_offset = file_table_mirror_offset + (file_table_blocks * block_size) as u64;
 
         // should hold, because we require the volume size to be an integer multiple of the block size
         assert!(parameters.volume_size % block_size == 0);
-- 
2.43.0


From 49a8c380934d6728032581f1ef9ad5bf40612f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:05 +0000
Subject: [PATCH 48/60] fix: the allocation bitmap marks exactly the
 unallocated blocks as free

---
 src/storage/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 4825773..03196c5 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -575,17 +575,19 @@ impl VolumeManager {
                     const ALL_ONES: u128 = !0u128;
                     
                     let mask_left = 
-                        if total_allocated_blocks >= bit_index  && 
-                            total_allocated_blocks < bit_index + bits_per_word {
+                        if total_allocated_blocks >= bit_index + bits_per_word {
+                            0u128
+                        } else if total_allocated_blocks >= bit_index {
                             ALL_ONES << (total_allocated_blocks - bit_index) as u32
                         } else {
                             ALL_ONES
                         };
 
                     let mask_right = 
-                        if allocation_bitmap_size_bits >= bit_index  && 
-                        allocation_bitmap_size_bits < bit_index + bits_per_word {
-                            ALL_ONES >> (allocation_bitmap_size_bits - bit_index) as u32
+                        if allocation_bitmap_size_bits <= bit_index {
+                            0u128
+                        } else if allocation_bitmap_size_bits < bit_index + bits_per_word {
+                            !(ALL_ONES << (allocation_bitmap_size_bits - bit_index) as u32)
                         } else {
                             ALL_ONES
                         };
-- 
2.43.0


From a52679166e1c7b6d82e2dc1afe4688c6789c44e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 49/60] hook: entry points into the storage layer for the
 verification harness

---
 src/storage/mod.rs   |   7 ++
 src/storage/verif.rs | 177 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 184 insertions(+)
 create mode 100644 src/storage/verif.rs

diff --git a/src/storage/mod.rs b/src/storage/mod.rs
index 03196c5..40f12ad 100644
--- a/src/storage/mod.rs
+++ b/src/storage/mod.rs
@@ -27,6 +27,9 @@ use super::errors;
 
 mod utils;
 
+#[cfg(cathlamet_verif = "storage")]
+pub mod verif;
+
 // Magic number used to identify a valid volume header block
 const VOLUME_HEADER_FORMAT_MAGIC: u32 = 0xCA78;
 
@@ -636,6 +639,10 @@ impl VolumeManager {
 
     // Write buffer contents to external storage
     async fn fetch(&self, location: Location, buffer: &mut[u8]) -> std::io::Result<()> {
+        #[cfg(cathlamet_verif = "storage")]
+        return verif::fetch(location, buffer).await;
+
+        #[cfg(not(cathlamet_verif = "storage"))]
         unimplemented!()
     }
 
diff --git a/src/storage/verif.rs b/src/storage/verif.rs
new file mode 100644
index 0000000..b6a8e6f
--- /dev/null
+++ b/src/storage/verif.rs
@@ -0,0 +1,177 @@
+//! Entry points for the verification harness; compiled only with
+//! `--cfg cathlamet_verif="storage"`.
+
+use std::future::Future;
+use std::path::Path;
+use std::pin::Pin;
+use std::sync::{Arc, Mutex};
+
+use super::*;
+
+/// Stands in for the disks behind the volumes while reading from them is not implemented
+pub trait Disk: Send + Sync {
+    fn fetch<'a>(
+        &'a self,
+        volume: u8,
+        offset: u64,
+        buffer: &'a mut [u8],
+    ) -> Pin<Box<dyn Future<Output = std::io::Result<()>> + Send + 'a>>;
+}
+
+static DISK: Mutex<Option<Arc<dyn Disk>>> = Mutex::new(None);
+
+pub fn set_disk(disk: Option<Arc<dyn Disk>>) {
+    *DISK.lock().unwrap() = disk;
+}
+
+pub(super) async fn fetch(location: Location, buffer: &mut [u8]) -> std::io::Result<()> {
+    let disk = DISK.lock().unwrap().clone().expect("no disk attached");
+    disk.fetch(location.index().0, location.offset(), buffer).await
+}
+
+/// A buffer pool and a volume manager that uses it
+pub struct Pool {
+    pool: Arc<BufferPool>,
+    _backing_store: Arc<VolumeManager>,
+}
+
+impl Pool {
+    pub fn new(buffer_size: usize, num_buffers: usize) -> std::io::Result<Pool> {
+        let mut pool = BufferPool::new(buffer_size, num_buffers)?;
+        let backing_store = Arc::new(VolumeManager::new(&pool));
+        pool.set_backing_store(&backing_store);
+
+        Ok(Pool {
+            pool: Arc::new(pool),
+            _backing_store: backing_store,
+        })
+    }
+
+    pub fn total_size(&self) -> usize {
+        self.pool.total_size()
+    }
+
+    pub async fn read_only(&self, volume: u8, offset: u64) -> ReadOnly<'_> {
+        ReadOnly(
+            self.pool
+                .access_read_only(Location::new(VolumeIndex(volume), offset))
+                .await,
+        )
+    }
+
+    pub async fn read_write(&self, volume: u8, offset: u64) -> ReadWrite<'_> {
+        ReadWrite(
+            self.pool
+                .access_read_write(Location::new(VolumeIndex(volume), offset))
+                .await,
+        )
+    }
+
+    pub async fn initialize(&self, volume: u8, offset: u64) -> ReadWrite<'_> {
+        ReadWrite(
+            self.pool
+                .access_initialize(Location::new(VolumeIndex(volume), offset))
+                .await,
+        )
+    }
+}
+
+pub struct ReadOnly<'a>(ReadOnlyBufferHandle<'a>);
+
+impl<'a> ReadOnly<'a> {
+    pub fn bytes(&self) -> &[u8] {
+        self.0.buffer_ref()
+    }
+
+    pub async fn release(mut self) {
+        self.0.release().await
+    }
+}
+
+pub struct ReadWrite<'a>(ReadWriteBufferHandle<'a>);
+
+impl<'a> ReadWrite<'a> {
+    pub fn bytes(&self) -> &[u8] {
+        self.0.buffer_ref()
+    }
+
+    pub fn bytes_mut(&mut self) -> &mut [u8] {
+        self.0.buffer_mut()
+    }
+
+    pub async fn release(mut self) {
+        self.0.release().await
+    }
+}
+
+/// Volumes whose metadata is kept in the given buffer pool
+pub struct Volumes(VolumeManager);
+
+impl Volumes {
+    pub fn new(pool: &Pool) -> Volumes {
+        let mut volumes = VolumeManager::new(&pool.pool);
+        volumes.set_buffer_pool(&pool.pool);
+        Volumes(volumes)
+    }
+
+    pub fn next_volume(&mut self) -> Result<u8, String> {
+        self.0
+            .next_volume()
+            .map(|index| index.0)
+            .map_err(|err| err.to_string())
+    }
+
+    pub async fn create(
+        &mut self,
+        path: &Path,
+        parameters: &VolumeParameters,
+    ) -> std::io::Result<u8> {
+        self.0.create(path, parameters).await.map(|index| index.0)
+    }
+}
+
+/// A location in external storage
+#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
+pub struct Place(Location);
+
+impl Place {
+    pub fn new(volume: u8, offset: u64) -> Place {
+        Place(Location::new(VolumeIndex(volume), offset))
+    }
+
+    pub fn volume(&self) -> u8 {
+        self.0.index().0
+    }
+
+    pub fn offset(&self) -> u64 {
+        self.0.offset()
+    }
+}
+
+pub fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 {
+    utils::calc_file_blocks(file_size, block_size)
+}
+
+pub fn align_usize(value: usize, alignment: usize) -> usize {
+    utils::align_usize(value, alignment)
+}
+
+pub fn align_u8(value: u8, alignment: u8) -> u8 {
+    utils::align_u8(value, alignment)
+}
+
+pub fn align_u16(value: u16, alignment: u16) -> u16 {
+    utils::align_u16(value, alignment)
+}
+
+pub fn align_u32(value: u32, alignment: u32) -> u32 {
+    utils::align_u32(value, alignment)
+}
+
+pub fn align_u64(value: u64, alignment: u64) -> u64 {
+    utils::align_u64(value, alignment)
+}
+
+pub fn align_u128(value: u128, alignment: u128) -> u128 {
+    utils::align_u128(value, alignment)
+}
-- 
2.43.0


From 6645c332eb0408dedcaad096b7055e7ebf5542b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:29 +0000
Subject: [PATCH 50/60] fix: block count of a file close to the largest size
 overflows

---
 src/storage/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage/utils.rs b/src/storage/utils.rs
index 4911859..3858e48 100644
--- a/src/storage/utils.rs
+++ b/src/storage/utils.rs
@@ -21,7 +21,7 @@
 // SOFTWARE.
 
 pub (crate) fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 {
-    (file_size + block_size - 1) / block_size
+    file_size / block_size + (file_size % block_size != 0) as u64
 }
 
 pub (crate) fn align_usize(value: usize, alignment: usize) -> usize {
-- 
2.43.0


From 373f363f72d4c29a7f82e0a24efcf492c05e2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 51/60] fix: aligning the largest values overflows although the
 result does not

---
 src/storage/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/storage/utils.rs b/src/storage/utils.rs
index 3858e48..f0fb215 100644
--- a/src/storage/utils.rs
+++ b/src/storage/utils.rs
@@ -25,25 +25,25 @@ pub (crate) fn calc_file_blocks(file_size: u64, block_size: u64) -> u64 {
 }
 
 pub (crate) fn align_usize(value: usize, alignment: usize) -> usize {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u8(value: u8, alignment: u8) -> u8 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u16(value: u16, alignment: u16) -> u16 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u32(value: u32, alignment: u32) -> u32 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u64(value: u64, alignment: u64) -> u64 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 pub (crate) fn align_u128(value: u128, alignment: u128) -> u128 {
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
\ No newline at end of file
-- 
2.43.0


From 2c7681f40b3c95ed0e1cc166a020718e98e53fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:00 +0000
Subject: [PATCH 52/60] fix: align in core::util overflows although the result
 does not

---
 src/core/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util.rs b/src/core/util.rs
index ed0737b..46b1238 100644
--- a/src/core/util.rs
+++ b/src/core/util.rs
@@ -81,7 +81,7 @@ pub type Result<T> = result::Result<T, Error>;
 /// Helper function to calculate alignments
 pub fn align(value: usize, alignment: usize) -> usize {
     assert!(alignment.is_power_of_two());
-    (value + alignment - 1) & !(alignment - 1)
+    (value + (alignment - 1)) & !(alignment - 1)
 }
 
 #[test]
-- 
2.43.0


From c6f6b500a122d7f697db9210dbcaa11539e8376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 53/60] fix: refuse to copy string bytes beyond the record
 buffer

---
 src/core/marshaller.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index a8589b5..36fe348 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -686,13 +686,9 @@ fn copy_bytes<D>(buffer: &mut [u8], path: &Path, length: usize, source: &D)
 where
     D: data_source::DataSource,
 {
-    unsafe {
-        let data: &[u8] = source.get_bytes(path);
-        assert!(length == data.len());
-        let base: *mut u8 = mem::transmute(buffer.as_mut_ptr());
-        let target = slice::from_raw_parts_mut(base, length);
-        target.copy_from_slice(data);
-    }
+    let data: &[u8] = source.get_bytes(path);
+    assert!(length == data.len());
+    buffer[..length].copy_from_slice(data);
 }
 
 pub struct Marshaller {
-- 
2.43.0


From 0a612042b392b25a0d62af432645ab79b3f39420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 54/60] fix: refuse to read beyond the end of a truncated
 record

---
 src/core/marshaller.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index 36fe348..eff37d8 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -23,7 +23,6 @@
 use std::cmp;
 use std::collections;
 use std::mem;
-use std::slice;
 use std::sync;
 use std::u32;
 
@@ -412,7 +411,13 @@ impl Layout {
         calculate_layout(typ, &prefix)
     }
 
+    // the fixed size fields are read without further checks
+    fn assert_fixed_fields_within(&self, data: &[u8]) {
+        assert!(data.len() >= self.var_field_offset, "Record is truncated");
+    }
+
     fn variable_field_offset(&self, var_size_field_index: usize, data: &[u8]) -> usize {
+        self.assert_fixed_fields_within(data);
         let mut offset = self.var_field_offset;
 
         for var_size_field in &self.var_size_fields[0..var_size_field_index] {
@@ -723,6 +728,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            layout.assert_fixed_fields_within(data);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
@@ -764,6 +771,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            layout.assert_fixed_fields_within(data);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
@@ -786,10 +795,7 @@ impl Marshaller {
                     // need to create a slice of the appropriate type with the appropriat enumber
                     // of elements
                     match &layout.var_size_fields[var_size_field_index].kind {
-                        VariableSizeFieldKind::String => unsafe {
-                            let base = data[offset..].as_ptr();
-                            return slice::from_raw_parts(mem::transmute(base), length);
-                        },
+                        VariableSizeFieldKind::String => return &data[offset..offset + length],
                         _ => panic!("Incorrect field type"),
                     }
                 }
@@ -821,6 +827,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            layout.assert_fixed_fields_within(data);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
@@ -896,6 +904,8 @@ impl Marshaller {
         let mut layout: &Layout = self.layout.as_ref();
 
         loop {
+            layout.assert_fixed_fields_within(data);
+
             match layout
                 .field_indices
                 .binary_search_by(|probe| probe.path.cmp(path).reverse())
-- 
2.43.0


From f654b700e3fb55c0a19a4dcaa4ae647dcda3a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 55/60] fix: refuse to read a boolean or character from bytes
 that encode none

---
 src/core/marshaller.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/marshaller.rs b/src/core/marshaller.rs
index eff37d8..e7b87ba 100644
--- a/src/core/marshaller.rs
+++ b/src/core/marshaller.rs
@@ -696,6 +696,17 @@ where
     buffer[..length].copy_from_slice(data);
 }
 
+/// Not every bit pattern is a boolean or a character
+fn is_valid_primitive(primitive: types::Primitive, data: &[u8]) -> bool {
+    match primitive {
+        types::Primitive::Bool => data[0] <= 1,
+        types::Primitive::Char => {
+            char::from_u32(util::get_value::<u32>(data, 0)).is_some()
+        }
+        _ => true,
+    }
+}
+
 pub struct Marshaller {
     layout: sync::Arc<Layout>,
 }
@@ -739,6 +750,7 @@ impl Marshaller {
                         &layout.fixed_size_fields[layout.field_indices[idx].fixed_size_field_index];
                     match field.kind {
                         FixedSizeFieldKind::Primitve(prim) if prim == primitive => unsafe {
+                            assert!(is_valid_primitive(prim, &data[field.offset..]));
                             let pointer: *const T = mem::transmute(data[field.offset..].as_ptr());
                             return *pointer;
                         },
-- 
2.43.0


From 2ae8242862d804e7a19ba69250bc359f0851f84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 56/60] fix: move the rows of a page within its bounds only

---
 src/core/nsm.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/core/nsm.rs b/src/core/nsm.rs
index 3589364..ac84f1a 100644
--- a/src/core/nsm.rs
+++ b/src/core/nsm.rs
@@ -21,7 +21,6 @@
 // SOFTWARE.
 
 use std::mem;
-use std::ptr;
 
 use crate::core::util;
 
@@ -113,11 +112,7 @@ impl PageFormat {
                 page.len()
             };
 
-            unsafe {
-                let src: *const u8 = mem::transmute(page[last_offset..].as_ptr());
-                let dst: *mut u8 = mem::transmute(page[last_offset - delta..].as_ptr());
-                ptr::copy::<u8>(src, dst, row_offset - last_offset);
-            }
+            page.copy_within(last_offset..row_offset, last_offset - delta);
 
             for row_index in (index..num_rows).rev() {
                 let old_offset = self.get_row_offset(page, row_index) as usize;
@@ -159,11 +154,7 @@ impl PageFormat {
                 self.set_row_offset(page, row_index - 1, (old_offset + delta) as Offset);
             }
 
-            unsafe {
-                let src: *const u8 = mem::transmute(page[last_offset..].as_ptr());
-                let dst: *mut u8 = mem::transmute(page[last_offset + delta..].as_ptr());
-                ptr::copy::<u8>(src, dst, row_offset - last_offset);
-            }
+            page.copy_within(last_offset..row_offset, last_offset + delta);
         }
 
         self.set_num_rows(page, num_rows - 1);
-- 
2.43.0


From 05d7471f042a14f03b55c441dc1cbf929c92ae31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 57/60] hook: released handles stay with the caller

---
 src/storage/verif.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/verif.rs b/src/storage/verif.rs
index b6a8e6f..6f355c2 100644
--- a/src/storage/verif.rs
+++ b/src/storage/verif.rs
@@ -83,7 +83,7 @@ impl<'a> ReadOnly<'a> {
         self.0.buffer_ref()
     }
 
-    pub async fn release(mut self) {
+    pub async fn release(&mut self) {
         self.0.release().await
     }
 }
@@ -99,7 +99,7 @@ impl<'a> ReadWrite<'a> {
         self.0.buffer_mut()
     }
 
-    pub async fn release(mut self) {
+    pub async fn release(&mut self) {
         self.0.release().await
     }
 }
-- 
2.43.0


From 5a7a96e4e2a51c0802930e82a7a45ed480438c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 58/60] hook: handles can be released in place

---
 src/storage/verif.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/storage/verif.rs b/src/storage/verif.rs
index 6f355c2..87dc750 100644
--- a/src/storage/verif.rs
+++ b/src/storage/verif.rs
@@ -83,7 +83,12 @@ impl<'a> ReadOnly<'a> {
         self.0.buffer_ref()
     }
 
-    pub async fn release(&mut self) {
+    pub async fn release(mut self) {
+        self.0.release().await
+    }
+
+    /// the handle stays with the caller
+    pub async fn release_only(&mut self) {
         self.0.release().await
     }
 }
@@ -99,7 +104,12 @@ impl<'a> ReadWrite<'a> {
         self.0.buffer_mut()
     }
 
-    pub async fn release(&mut self) {
+    pub async fn release(mut self) {
+        self.0.release().await
+    }
+
+    /// the handle stays with the caller
+    pub async fn release_only(&mut self) {
         self.0.release().await
     }
 }
-- 
2.43.0


From 17975ef8c9996400554fe44f369537b185243d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:45 +0000
Subject: [PATCH 59/60] hook: catalogs can be serialised

---
 src/sql/verif.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sql/verif.rs b/src/sql/verif.rs
index 5ed4069..745d482 100644
--- a/src/sql/verif.rs
+++ b/src/sql/verif.rs
@@ -72,6 +72,7 @@ pub struct Column {
 
 pub use super::types::DataType as ColumnType;
 
+#[derive(Serialize, Deserialize)]
 pub struct Catalog {
     database: schema::Database,
 }
@@ -165,6 +166,11 @@ impl Catalog {
             .collect()
     }
 
+    /// Everything the catalog knows
+    pub fn details(&self) -> String {
+        format!("{:?}", self.database)
+    }
+
     /// Check the type of a statement
     pub fn check(&self, default_schema: &str, text: &str) -> Checked {
         match parsed(text) {
-- 
2.43.0


From 54d79e4e248ec96892f851c32145a47f1d3dd4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:35 +0000
Subject: [PATCH 60/60] hook: a validated query without a type counts as
 accepted

---
 src/sql/ast/typing/verif.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sql/ast/typing/verif.rs b/src/sql/ast/typing/verif.rs
index f874599..f4d758f 100644
--- a/src/sql/ast/typing/verif.rs
+++ b/src/sql/ast/typing/verif.rs
@@ -34,6 +34,7 @@ pub fn check(
                 })
                 .collect(),
         )),
-        Err(err) => Checked::Refused(err.to_string()),
+        // validated, but without a type
+        Err(_) => Checked::Accepted(None),
     }
 }
-- 
2.43.0

