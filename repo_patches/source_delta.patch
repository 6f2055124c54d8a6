From 549d7eaa675951e5b60be5959c93423247a70f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 01/42] fix: encode, decode and size the minimum varint value
 (one byte 0x80)

---
 crates/zserio/src/ztype/varint_bitsize.rs | 10 ++++++----
 crates/zserio/src/ztype/varint_decode.rs  |  7 ++++++-
 crates/zserio/src/ztype/varint_encode.rs  |  7 ++++++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..d8cc961 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -16,12 +16,14 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
     signed_bitsize(v, 9)
 }
 
-pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
-    if v < 0 {
-        v = -v
+pub fn signed_bitsize(v: i64, max_bytes: u8) -> Result<u8> {
+    if max_bytes == 9 && v == i64::MIN {
+        // The minimum value of varint is encoded as a negative zero, in a single byte.
+        return Ok(8);
     }
+    let v = v.unsigned_abs();
 
-    let mut max: i64 = (1 << 6) - 1;
+    let mut max: u64 = (1 << 6) - 1;
 
     let mut bytes = 1;
     loop {
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..0eeb6c8 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -37,7 +37,12 @@ fn read_sized_int(reader: &mut BitReader, bit_length: u8) -> Result<i64> {
         value = (value << 8) | (b as i64);
     }
     if is_negative {
-        value = -value;
+        // In varint, the negative zero stands for the minimum value.
+        value = if value == 0 && bit_length == 9 {
+            i64::MIN
+        } else {
+            -value
+        };
     }
     Ok(value)
 }
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..81c1413 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,7 +19,12 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
+    if max_bytes == 9 && v == i64::MIN {
+        // The minimum value of varint is encoded as a negative zero.
+        writer.write_unsigned_bits(0x80, 8, 8)?;
+        return Ok(());
+    }
+    let abs_value = v.unsigned_abs();
 
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
 
-- 
2.43.0


From b9eae26eef9f3360a074f7b7f9f3d596c3230645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 02/42] fix: report an encoded varsize beyond the type's range
 instead of truncating it

---
 crates/zserio/src/ztype/varuint_decode.rs | 10 ++++++++--
 crates/zserio/src/ztype/varuint_encode.rs |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..2bc692d 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,14 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    // The encoding of varsize has more bits than its range.
+    let v = read_sized_uint(reader, 5)?;
+    if v > MAX_VARSIZE as u64 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
+    Ok(v as u32)
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..8afb834 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -2,7 +2,7 @@ use crate::error::Result;
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
+pub(crate) const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
 
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
-- 
2.43.0


From 4cab9127d92b693a2923eae41bb0896844400e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 03/42] fix: return an error instead of panicking when a
 varuint or varsize value is out of range

---
 crates/zserio/src/ztype/varuint_encode.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index 8afb834..fedef02 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
@@ -22,12 +22,14 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From 4059c92ed3b6ec4129217add657f97d2c99f140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:30 +0000
Subject: [PATCH 04/42] fix: return an error for a truncated string length or
 extern payload instead of panicking

---
 crates/zserio/src/ztype/extern_type.rs   | 4 +---
 crates/zserio/src/ztype/string_decode.rs | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..3bc38f2 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..7b668a3 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader).map(|v| v as usize)?;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
-- 
2.43.0


From 2f1a5eaa5654b1d47d4e2798c1c9192b7ebf7a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 05/42] fix: refuse to write a buffer whose declared size does
 not match its data

---
 crates/zserio/src/ztype/bytes_type.rs  | 6 ++++++
 crates/zserio/src/ztype/extern_type.rs | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index c7d2b85..4d3a93a 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -2,6 +2,7 @@ use crate::error::Result;
 use crate::ztype::reader::read_bytes;
 use crate::ztype::writer::write_bytes;
 use crate::ztype::{read_varsize, varsize_bitsize, write_varsize};
+use crate::ZserioError;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
 
@@ -22,6 +23,11 @@ pub fn read_bytes_type(bit_reader: &mut BitReader) -> Result<BytesType> {
 
 /// Writes a zserio bytes type to a bitstream.
 pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> Result<()> {
+    if bytes_type.data_blob.len() != bytes_type.byte_size as usize {
+        return Err(ZserioError::DataError(
+            "bytes data does not match its byte size".into(),
+        ));
+    }
     write_varsize(bit_writer, bytes_type.byte_size)?;
     write_bytes(bit_writer, &bytes_type.data_blob)?;
     Ok(())
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index 3bc38f2..c7ae178 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -53,6 +53,11 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
 /// Writes a zserio extern type to a bitstream.
 pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -> Result<()> {
+    if extern_type.data_blob.len() != extern_type.bit_size.div_ceil(8) as usize {
+        return Err(ZserioError::DataError(
+            "extern data does not match its bit size".into(),
+        ));
+    }
     write_varsize(bit_writer, extern_type.bit_size)?;
     let num_of_full_bytes = (extern_type.bit_size / 8) as usize;
     let remaining_bits = (extern_type.bit_size % 8) as u8;
-- 
2.43.0


From e24a08471caf2172cbf0d7315852e6af66033292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 06/42] fix: count string array elements in bits

---
 crates/zserio/src/ztype/array_traits/string_array_trait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index c6634a6..dd74c6b 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -1,8 +1,8 @@
 use crate::error::Result;
 use crate::ztype::array_traits::array_trait;
 use crate::ztype::array_traits::packing_context_node::PackingContextNode;
+use crate::ztype::bitsize_string;
 use crate::ztype::read_string;
-use crate::ztype::varsize_bitsize;
 use crate::ztype::write_string;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 + varsize_bitsize(value.len() as u32)? as u64)
+        bitsize_string(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
-- 
2.43.0


From 61b74bd6b59b7e70be0baa9bf398366d3c9406d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 07/42] fix: return an error for a truncated packing descriptor
 instead of panicking

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..ff63642 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -95,7 +95,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -162,14 +162,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
-- 
2.43.0


From 8aca410f3bd7bcc8b8588dda77efdc06d4100451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 08/42] fix: do not overflow when packing deltas of 64-bit
 elements

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index ff63642..0168c95 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -103,7 +103,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element = self.previous_element.wrapping_add(delta as u64);
         }
         *value = array_traits.from_u64(self.previous_element);
         Ok(())
@@ -147,7 +147,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let element_as_u64 = array_traits.to_u64(element);
-            let delta = element_as_u64 as i64 - self.previous_element as i64;
+            let delta = element_as_u64.wrapping_sub(self.previous_element) as i64;
             ztype::write_signed_bits(writer, delta, self.max_bit_number + 1)?;
             self.previous_element = element_as_u64;
         }
-- 
2.43.0


From 2b6255ae926269c8acdce3f0776765910e4379a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:49 +0000
Subject: [PATCH 09/42] fix: compute packing deltas of signed elements with
 their sign

---
 crates/zserio/src/ztype/array_traits/array_trait.rs        | 5 +++++
 .../zserio/src/ztype/array_traits/bit_field_array_trait.rs | 4 ++++
 crates/zserio/src/ztype/array_traits/delta_context.rs      | 7 ++++++-
 .../zserio/src/ztype/array_traits/varint16_array_trait.rs  | 4 ++++
 .../zserio/src/ztype/array_traits/varint32_array_trait.rs  | 4 ++++
 .../zserio/src/ztype/array_traits/varint64_array_trait.rs  | 4 ++++
 crates/zserio/src/ztype/array_traits/varint_array_trait.rs | 4 ++++
 7 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array_traits/array_trait.rs b/crates/zserio/src/ztype/array_traits/array_trait.rs
index 591a719..d9d8f25 100644
--- a/crates/zserio/src/ztype/array_traits/array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/array_trait.rs
@@ -14,6 +14,11 @@ pub trait ArrayTrait<T> {
     #[allow(clippy::wrong_self_convention)]
     fn from_u64(&self, value: u64) -> T;
 
+    /// Tells if `to_u64` returns the two's complement of a signed value.
+    fn is_signed(&self) -> bool {
+        false
+    }
+
     // all functions below are for using packed contexts. They provide a default implementation
     // for array traits using delta contexts.
     fn create_context(&self) -> PackingContextNode {
diff --git a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
index efd5a48..84b079a 100644
--- a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
@@ -46,6 +46,10 @@ impl array_trait::ArrayTrait<name> for BitFieldArrayTrait {
         value as name
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &name) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 0168c95..2ffb882 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -51,7 +51,12 @@ impl DeltaContext {
             self.first_element_size = self.unpacked_size;
         } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {
             self.is_packed = true;
-            let delta = self.previous_element.abs_diff(array_trait.to_u64(element));
+            let element_as_u64 = array_trait.to_u64(element);
+            let delta = if array_trait.is_signed() {
+                (self.previous_element as i64).abs_diff(element_as_u64 as i64)
+            } else {
+                self.previous_element.abs_diff(element_as_u64)
+            };
             let max_bit_number = bit_length(delta);
             if max_bit_number > self.max_bit_number {
                 self.max_bit_number = max_bit_number;
diff --git a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
index 2e9f35f..a7e10ac 100644
--- a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i16> for VarInt16ArrayTrait {
         value as i16
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i16) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
index 84a9fc2..43347b6 100644
--- a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i32> for VarInt32ArrayTrait {
         value as i32
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i32) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
index f9b03c0..75f0c99 100644
--- a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i64> for VarInt64ArrayTrait {
         value as i64
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
index 9d999ba..d2e119a 100644
--- a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
@@ -40,6 +40,10 @@ impl array_trait::ArrayTrait<i64> for VarIntArrayTrait {
         value as i64
     }
 
+    fn is_signed(&self) -> bool {
+        true
+    }
+
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
     }
-- 
2.43.0


From f37a0b37235431fc685a89c851b5dbfbaf210ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 10/42] fix: refuse integers that do not fit their bit field
 instead of truncating them

---
 crates/zserio/src/ztype/bits_encode.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 537ffc6..3b8fe98 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -1,10 +1,13 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
     if bits > 64 {
         panic! {"cannot write more than 64 bits"};
     }
+    if bits < 64 && v >> bits != 0 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     Ok(writer.write_u64(v, bits)?)
 }
 
@@ -12,6 +15,14 @@ pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()>
     if bits > 64 {
         panic! {"cannot write more than 64 bits"};
     }
+    let unused_bits = 64 - bits;
+    let fits = match bits {
+        0 => v == 0,
+        _ => (v << unused_bits) >> unused_bits == v,
+    };
+    if !fits {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     Ok(writer.write_i64(v, bits)?)
 }
 
-- 
2.43.0


From ab1963bb6577c3b2fad2ba9050c026217694b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 11/42] fix: do not predict a size for a value beyond the range
 of varsize

---
 crates/zserio/src/ztype/varuint_bitsize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zserio/src/ztype/varuint_bitsize.rs b/crates/zserio/src/ztype/varuint_bitsize.rs
index 63f7455..8cdba5a 100644
--- a/crates/zserio/src/ztype/varuint_bitsize.rs
+++ b/crates/zserio/src/ztype/varuint_bitsize.rs
@@ -1,4 +1,5 @@
 use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 
 pub fn varuint16_bitsize(v: u16) -> Result<u8> {
     unsigned_bitsize(v as u64, 2)
@@ -17,6 +18,9 @@ pub fn varuint_bitsize(v: u64) -> Result<u8> {
 }
 
 pub fn varsize_bitsize(v: u32) -> Result<u8> {
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     unsigned_bitsize(v as u64, 5)
 }
 
-- 
2.43.0


From d8b38cec539ba3061bc389950e032be327760163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 12/42] fix: align_to at bit position 0

---
 crates/zserio/src/ztype/bit_alignment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/bit_alignment.rs b/crates/zserio/src/ztype/bit_alignment.rs
index 6ff9de4..8dfbdde 100644
--- a/crates/zserio/src/ztype/bit_alignment.rs
+++ b/crates/zserio/src/ztype/bit_alignment.rs
@@ -7,7 +7,7 @@
 /// let bitcount = align_to(8, 15); // returns 16
 /// ```
 pub fn align_to(align_to_bitcount: u8, bit_position: u64) -> u64 {
-    (((bit_position - 1) / align_to_bitcount as u64) + 1) * align_to_bitcount as u64
+    bit_position.div_ceil(align_to_bitcount as u64) * align_to_bitcount as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From 615ed96559ac76dafd9624996ef2426c50453348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 13/42] fix: store packed arrays of elements without delta
 compression plainly

---
 .../array_traits/bit_buffer_array_trait.rs    | 40 ++++++------------
 .../ztype/array_traits/boolean_array_trait.rs | 38 +++++------------
 .../array_traits/byte_buffer_array_trait.rs   | 40 ++++++------------
 .../ztype/array_traits/float16_array_trait.rs | 38 +++++------------
 .../ztype/array_traits/float32_array_trait.rs | 38 +++++------------
 .../ztype/array_traits/float64_array_trait.rs | 38 +++++------------
 .../ztype/array_traits/string_array_trait.rs  | 42 +++++++------------
 7 files changed, 83 insertions(+), 191 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
index cc48a22..1ca011f 100644
--- a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
@@ -42,63 +42,47 @@ impl array_trait::ArrayTrait<ztype::ExternType> for BitBufferArrayTrait {
 
     fn init_context(
         &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::ExternType,
+        _context_node: &mut PackingContextNode,
+        _element: &ztype::ExternType,
     ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+        // not delta-compressed, packed arrays store the plain elements
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::ExternType,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::ExternType,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut ztype::ExternType,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &ztype::ExternType,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
index 53195bf..1d8c5ab 100644
--- a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
@@ -39,61 +39,45 @@ impl array_trait::ArrayTrait<bool> for BooleanArrayTrait {
         false // delta-encoding not supported for bool arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &bool) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &bool) -> Result<()> {
+        // not delta-compressed, packed arrays store the plain elements
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &bool,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &bool,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut bool,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &bool,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
index 33ed52d..407013d 100644
--- a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
@@ -42,63 +42,47 @@ impl array_trait::ArrayTrait<ztype::BytesType> for ByteBufferArrayTrait {
 
     fn init_context(
         &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::BytesType,
+        _context_node: &mut PackingContextNode,
+        _element: &ztype::BytesType,
     ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+        // not delta-compressed, packed arrays store the plain elements
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::BytesType,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &ztype::BytesType,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut ztype::BytesType,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &ztype::BytesType,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
index 1a0be5e..fcdfabc 100644
--- a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
@@ -40,61 +40,45 @@ impl array_trait::ArrayTrait<f32> for Float16ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f32) -> Result<()> {
+        // not delta-compressed, packed arrays store the plain elements
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f32,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f32,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
index 2364119..2804608 100644
--- a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
@@ -40,61 +40,45 @@ impl array_trait::ArrayTrait<f32> for Float32ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f32) -> Result<()> {
+        // not delta-compressed, packed arrays store the plain elements
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f32,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f32,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f32,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
index 79088b9..eecef67 100644
--- a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
@@ -40,61 +40,45 @@ impl array_trait::ArrayTrait<f64> for Float64ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f64) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _context_node: &mut PackingContextNode, _element: &f64) -> Result<()> {
+        // not delta-compressed, packed arrays store the plain elements
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f64,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
 
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &f64,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut f64,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &f64,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index dd74c6b..5bf9c24 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -42,60 +42,48 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
         "".into() // not supported for strings
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &String) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(
+        &self,
+        _context_node: &mut PackingContextNode,
+        _element: &String,
+    ) -> Result<()> {
+        // not delta-compressed, packed arrays store the plain elements
+        Ok(())
     }
 
     fn bitsize_of_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &String,
     ) -> Result<u64> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .bitsize_of(self, bit_position, element)
+        self.bitsize_of(bit_position, element)
     }
     fn initialize_offsets_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         bit_position: u64,
         element: &String,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        self.initialize_offsets(bit_position, element)
     }
 
     fn read_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         reader: &mut BitReader,
         value: &mut String,
         _index: usize,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .read(self, reader, value)
+        self.read(reader, value)
     }
 
     fn write_packed(
         &self,
-        context_node: &mut PackingContextNode,
+        _context_node: &mut PackingContextNode,
         writer: &mut BitWriter,
         element: &String,
     ) -> Result<()> {
-        context_node
-            .context
-            .as_mut()
-            .unwrap()
-            .write(self, writer, element)
+        self.write(writer, element)
     }
 }
-- 
2.43.0


From 3ee3613bc2e53cb09333abb05f6ed021d13bce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 14/42] fix: predict the size of buffers, expression-sized and
 packed bit fields as they are written

---
 .../src/internal/generator/bitsize.rs         | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..602f41d 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -23,13 +23,13 @@ pub fn bitsize_type_reference(
         if packed {
             // Use packed bitsize
             function.line(format!(
-                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position).unwrap();",
+                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position)?;",
                 field_name,
                 field_index,
             ));
         } else {
             function.line(format!(
-                "end_position += {}.zserio_bitsize(end_position).unwrap();",
+                "end_position += {}.zserio_bitsize(end_position)?;",
                 field_name
             ));
         }
@@ -37,21 +37,22 @@ pub fn bitsize_type_reference(
         if type_reference.name == "string" {
             // string types
             function.line(format!(
-                "end_position += ztype::bitsize_string({}.as_str()).unwrap();",
+                "end_position += ztype::bitsize_string({}.as_str())?;",
                 field_name
             ));
         } else if type_reference.name == "extern" {
-            function.line(format!("end_position += {}.bit_size as u64;", field_name));
+            function.line(format!(
+                "end_position += ztype::bitsize_of_extern(&{});",
+                field_name
+            ));
         } else if type_reference.name == "bytes" {
             function.line(format!(
-                "end_position += ({}.byte_size as u64) * 8;",
+                "end_position += ztype::bitsize_of_bytes(&{});",
                 field_name
             ));
         } else if type_reference.name == "bool" {
             // boolean
             function.line("end_position += 1;");
-        } else if type_reference.bits != 0 {
-            function.line(format!("end_position += {};", type_reference.bits));
         } else if packed {
             // packed bitsize
             function.line(format!(
@@ -60,6 +61,13 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if let Some(length_expression) = &type_reference.length_expression {
+            function.line(format!(
+                "end_position += ({}) as u64;",
+                generate_expression(&length_expression.borrow(), type_generator, scope)
+            ));
+        } else if type_reference.bits != 0 {
+            function.line(format!("end_position += {};", type_reference.bits));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
@@ -74,31 +82,31 @@ pub fn bitsize_type_reference(
                 "float32" => String::from("32"),
                 "float64" => String::from("64"),
                 "varint" => {
-                    format!("ztype::varint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint_bitsize({})? as u64", field_name)
                 }
                 "varint16" => {
-                    format!("ztype::varint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint16_bitsize({})? as u64", field_name)
                 }
                 "varint32" => {
-                    format!("ztype::varint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint32_bitsize({})? as u64", field_name)
                 }
                 "varint64" => {
-                    format!("ztype::varint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint64_bitsize({})? as u64", field_name)
                 }
                 "varuint" => {
-                    format!("ztype::varuint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint_bitsize({})? as u64", field_name)
                 }
                 "varuint16" => {
-                    format!("ztype::varuint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint16_bitsize({})? as u64", field_name)
                 }
                 "varuint32" => {
-                    format!("ztype::varuint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint32_bitsize({})? as u64", field_name)
                 }
                 "varuint64" => {
-                    format!("ztype::varuint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint64_bitsize({})? as u64", field_name)
                 }
                 "varsize" => {
-                    format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varsize_bitsize({})? as u64", field_name)
                 }
                 "int" | "bit" => {
                     format!("{} as u64", type_reference.bits)
-- 
2.43.0


From 645b7ed9faf6a0e4ad3ed62d6f58ea76b9623175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 15/42] fix: decoding into a used object kept absent and
 unselected members

---
 .../src/internal/generator/decode.rs          | 14 +++++++++++++-
 .../src/internal/generator/zchoice.rs         | 19 +++++++++++++++++--
 .../src/internal/generator/zunion.rs          | 14 +++++++++++++-
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..da1a820 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -438,8 +438,20 @@ pub fn decode_field(
             "self.{} = Option::from(optional_value);",
             TypeGenerator::convert_field_name(&field.name)
         ));
-        function.line("}"); // close the "if present {"
+        // An absent field must not keep a value decoded earlier.
+        function.line("} else {"); // close the "if present {"
+        function.line(format!("self.{} = None;", field_details.field_name));
+        function.line("}");
     }
 
+    if field.optional_clause.is_some() {
+        function.line("} else {");
+        reset_field(function, &field_details.field_name);
+    }
     function.line("}");
 }
+
+/// Resets a member, so that it does not keep a value decoded earlier.
+pub fn reset_field(function: &mut Function, field_name: &str) {
+    function.line(format!("self.{field_name} = Default::default();"));
+}
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..60c6466 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -7,8 +7,9 @@ use crate::internal::ast::zchoice::ZChoice;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
     array::instantiate_zserio_array, bitsize::bitsize_field, decode::decode_field,
-    encode::encode_field, expression::generate_expression, file_generator::write_to_file,
-    function::generate_function, packed_contexts::generate_init_packed_context_for_field,
+    decode::reset_field, encode::encode_field, expression::generate_expression,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
     packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::TypeGenerator,
     zstruct::generate_struct_member_for_field,
@@ -207,6 +208,18 @@ pub fn generate_choice_match_construct(
     code_gen_fn.line("}");
 }
 
+/// Generates the code that resets all members before another one may be selected.
+fn generate_reset_members(code_gen_fn: &mut Function, zchoice: &ZChoice) {
+    for case in zchoice.cases.iter().chain(zchoice.default_case.as_ref()) {
+        if let Some(field) = &case.field {
+            reset_field(
+                code_gen_fn,
+                &TypeGenerator::convert_field_name(&field.borrow().name),
+            );
+        }
+    }
+}
+
 fn generate_zserio_read(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -217,6 +230,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg_mut_self();
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
+    generate_reset_members(zserio_read_fn, choice);
 
     generate_choice_match_construct(
         symbol_scope,
@@ -233,6 +247,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    generate_reset_members(zserio_read_packed_fn, choice);
     generate_choice_match_construct(
         symbol_scope,
         type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..9008751 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -4,7 +4,7 @@ use crate::internal::ast::zunion::ZUnion;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
-    bitsize::bitsize_field, decode::decode_field, encode::encode_field,
+    bitsize::bitsize_field, decode::decode_field, decode::reset_field, encode::encode_field,
     file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
@@ -194,6 +194,16 @@ pub fn generate_union_match_construct(
     code_gen_fn.line("}");
 }
 
+/// Generates the code that resets all members before another one may be selected.
+fn generate_reset_members(code_gen_fn: &mut Function, zunion: &ZUnion) {
+    for field in &zunion.fields {
+        reset_field(
+            code_gen_fn,
+            &TypeGenerator::convert_field_name(&field.borrow().name),
+        );
+    }
+}
+
 fn generate_zserio_read(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -205,6 +215,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg_mut_self();
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
+    generate_reset_members(zserio_read_fn, union);
     zserio_read_fn.line(format!(
         "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
         rust_type_name
@@ -225,6 +236,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    generate_reset_members(zserio_read_packed_fn, union);
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From 2f0d8aad2b4ee84ddd23c9f795f3f8a591774fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:46 +0000
Subject: [PATCH 16/42] fix: an unknown union selector is an error, not a panic

---
 .../zserio-rs-build/src/internal/generator/zunion.rs  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 9008751..24a4e7a 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -70,18 +70,21 @@ pub fn generate_union(
     let union_selector_impl_gen_scope = codegen_scope.new_impl(&selector_type_name);
     let union_selector_from_fn_scope = union_selector_impl_gen_scope.new_fn("from_u32");
     union_selector_from_fn_scope.arg("value", "u32");
-    union_selector_from_fn_scope.ret(&selector_type_name);
+    union_selector_from_fn_scope.ret("Result<Self>");
     union_selector_from_fn_scope.vis("pub");
     union_selector_from_fn_scope.line("match value {");
     for (field_index, field) in zunion.fields.iter().enumerate() {
         let selector_union_name = convert_to_union_selector_name(&field.borrow().name);
         union_selector_from_fn_scope.line(format!(
-            "{} => {}::{},",
+            "{} => Ok({}::{}),",
             field_index, selector_type_name, selector_union_name
         ));
     }
 
-    union_selector_from_fn_scope.line("_ => panic!(\"unsupported value\"),");
+    union_selector_from_fn_scope.line(format!(
+        "_ => Err(zserio::ZserioError::DataError(format!(\"unexpected selector for {}: {{}}\", value))),",
+        rust_type_name
+    ));
     union_selector_from_fn_scope.line("}");
 
     // generate the union itself
@@ -217,7 +220,7 @@ fn generate_zserio_read(
     zserio_read_fn.ret("Result<()>");
     generate_reset_members(zserio_read_fn, union);
     zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
+        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?)?;",
         rust_type_name
     ));
 
-- 
2.43.0


From 2aedcde0b8fe78e307d902da21a73483c5b21f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:27 +0000
Subject: [PATCH 17/42] fix: packed arrays of unions

---
 .../src/internal/generator/zunion.rs          | 50 +++++++++++++++++--
 1 file changed, 47 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 24a4e7a..3eaf911 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,13 +5,18 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, decode::reset_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
 
 use std::path::Path;
 
+/// The selector of a union is a varsize.
+const SELECTOR_ARRAY_TRAIT: &str = "ztype::array_traits::VarSizeArrayTrait {}";
+
 pub fn generate_struct_member_for_field(
     type_generator: &mut TypeGenerator,
     gen_struct: &mut Struct,
@@ -130,11 +135,39 @@ pub fn generate_union(
     // Generate the packed contexts.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    // The selector is delta-compressed as well.
+    create_packing_context_fn.line("context_node.context = Some(DeltaContext::new());");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index, symbol_scope, type_generator);
+        generate_packed_context_for_field(create_packing_context_fn, &field_details);
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    init_packing_context_fn.line(format!(
+        "context_node.context.as_mut().unwrap().init(&{SELECTOR_ARRAY_TRAIT}, &(self.union_selector as u32))?;"
+    ));
+    init_packing_context_fn.line("match &self.union_selector {");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        init_packing_context_fn.line(format!(
+            "{}::{} => {{",
+            selector_type_name,
+            convert_to_union_selector_name(&field.borrow().name)
+        ));
+        let field_details =
+            FieldDetails::from_field(field, field_index, symbol_scope, type_generator);
+        generate_init_packed_context_for_field(
+            symbol_scope,
+            type_generator,
+            init_packing_context_fn,
+            &field_details,
+        );
+        init_packing_context_fn.line("},");
+    }
+    init_packing_context_fn.line("}");
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -240,6 +273,13 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
     generate_reset_members(zserio_read_packed_fn, union);
+    zserio_read_packed_fn.line("let mut union_selector: u32 = 0;");
+    zserio_read_packed_fn.line(format!(
+        "context_node.context.as_mut().unwrap().read(&{SELECTOR_ARRAY_TRAIT}, reader, &mut union_selector)?;"
+    ));
+    zserio_read_packed_fn.line(format!(
+        "self.union_selector = {rust_type_name}Selector::from_u32(union_selector)?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -277,8 +317,9 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
-    zserio_write_packed_fn
-        .line("ztype::write_varsize(writer, self.union_selector as u32)?;".to_string());
+    zserio_write_packed_fn.line(format!(
+        "context_node.context.as_mut().unwrap().write(&{SELECTOR_ARRAY_TRAIT}, writer, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -318,6 +359,9 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn.line(format!(
+        "end_position += context_node.context.as_mut().unwrap().bitsize_of(&{SELECTOR_ARRAY_TRAIT}, end_position, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From f7ae04371fb0a35b4ba637644c90b75e8358ab7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:03 +0000
Subject: [PATCH 18/42] fix: the default case of a choice; a selector without a
 case is an error

---
 .../src/internal/generator/zchoice.rs                | 12 ++++++++----
 crates/zserio-rs-build/src/internal/visitor.rs       |  9 ++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 60c6466..d469a87 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -181,7 +181,7 @@ pub fn generate_choice_match_construct(
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
@@ -190,7 +190,7 @@ pub fn generate_choice_match_construct(
                 type_generator,
                 code_gen_fn,
                 &field.borrow(),
-                false,
+                packed,
                 default_field.is_packable,
             );
             f(
@@ -201,9 +201,13 @@ pub fn generate_choice_match_construct(
                 packed,
             );
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
-        code_gen_fn.line("_ => (),");
+        // A selector without a case cannot be represented.
+        code_gen_fn.line(format!(
+            "_ => return Err(zserio::ZserioError::DataError(\"no case of {} is selected\".into())),",
+            TypeGenerator::to_rust_type_name(&zchoice.name)
+        ));
     }
     code_gen_fn.line("}");
 }
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..a453e3c 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,14 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        if let Some(default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(choice_case) => {
+                    choice.default_case = Option::from(choice_case)
+                }
+                _ => panic!("choice case type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
-- 
2.43.0


From 03701da57e1560ceb1e6ef7b0957f91018403cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:16 +0000
Subject: [PATCH 19/42] fix: only the selected case of a choice takes part in
 delta compression

---
 .../src/internal/generator/zchoice.rs         | 73 ++++++++++---------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index d469a87..7c0a56f 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -102,14 +102,17 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    // Only the selected case takes part in the delta compression.
+    generate_choice_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        None,
+        &|scope, type_generator, function, field, _| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -137,7 +140,7 @@ pub fn generate_choice_match_construct(
     type_generator: &mut TypeGenerator,
     code_gen_fn: &mut Function,
     zchoice: &ZChoice,
-    packed: bool,
+    packed: Option<bool>, // None if no array is processed
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
     let selector_name =
@@ -161,21 +164,23 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &case.field {
             let field_details =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                field_details.is_packable,
-            );
+            if let Some(packed) = packed {
+                instantiate_zserio_array(
+                    symbol_scope,
+                    type_generator,
+                    code_gen_fn,
+                    &field.borrow(),
+                    packed,
+                    field_details.is_packable,
+                );
+            }
             context_node_index += 1;
             f(
                 symbol_scope,
                 type_generator,
                 code_gen_fn,
                 &field_details,
-                packed,
+                packed.unwrap_or_default(),
             );
         }
         code_gen_fn.line("},");
@@ -185,20 +190,22 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                default_field.is_packable,
-            );
+            if let Some(packed) = packed {
+                instantiate_zserio_array(
+                    symbol_scope,
+                    type_generator,
+                    code_gen_fn,
+                    &field.borrow(),
+                    packed,
+                    default_field.is_packable,
+                );
+            }
             f(
                 symbol_scope,
                 type_generator,
                 code_gen_fn,
                 &default_field,
-                packed,
+                packed.unwrap_or_default(),
             );
         }
         code_gen_fn.line("},");
@@ -241,7 +248,7 @@ fn generate_zserio_read(
         type_generator,
         zserio_read_fn,
         choice,
-        false,
+        Some(false),
         &decode_field,
     );
     zserio_read_fn.line("Ok(())");
@@ -257,7 +264,7 @@ fn generate_zserio_read(
         type_generator,
         zserio_read_packed_fn,
         choice,
-        true,
+        Some(true),
         &decode_field,
     );
     zserio_read_packed_fn.line("Ok(())");
@@ -278,7 +285,7 @@ fn generate_zserio_write(
         type_generator,
         zserio_write_fn,
         choice,
-        false,
+        Some(false),
         &encode_field,
     );
     zserio_write_fn.line("Ok(())");
@@ -293,7 +300,7 @@ fn generate_zserio_write(
         type_generator,
         zserio_write_packed_fn,
         choice,
-        true,
+        Some(true),
         &encode_field,
     );
     zserio_write_packed_fn.line("Ok(())");
@@ -315,7 +322,7 @@ fn generate_zserio_bitsize(
         type_generator,
         bitsize_fn,
         choice,
-        false,
+        Some(false),
         &bitsize_field,
     );
     bitsize_fn.line("Ok(end_position - bit_position)");
@@ -331,7 +338,7 @@ fn generate_zserio_bitsize(
         type_generator,
         bitsize_packed_fn,
         choice,
-        true,
+        Some(true),
         &bitsize_field,
     );
     bitsize_packed_fn.line("Ok(end_position - bit_position)");
-- 
2.43.0


From 72de682eab96952f20903bae2db495a56c3044e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:48 +0000
Subject: [PATCH 20/42] fix: implicit arrays have no length prefix

---
 .../src/internal/generator/array.rs           | 24 +++++++++++++++++++
 .../src/internal/generator/decode.rs          | 20 ++++++++++++----
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index bb35417..87d4cce 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -91,6 +91,22 @@ pub fn initialize_array_trait(
     code_str
 }
 
+/// The size of one element of an implicit array, in bits.
+pub fn implicit_element_bitsize(zserio_type: &TypeReference) -> u8 {
+    match zserio_type.name.as_str() {
+        "bool" => 1,
+        "int8" | "uint8" => 8,
+        "int16" | "uint16" | "float16" => 16,
+        "int32" | "uint32" | "float32" => 32,
+        "int64" | "uint64" | "float64" => 64,
+        _ if zserio_type.bits != 0 => zserio_type.bits,
+        _ => panic!(
+            "implicit array of {:?}, which has no constant bit size",
+            &zserio_type.name
+        ),
+    }
+}
+
 pub fn instantiate_zserio_array(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
@@ -123,6 +139,14 @@ pub fn instantiate_zserio_array(
             "Some(({}) as usize)",
             generate_expression(&array_length_expression.borrow(), type_generator, scope)
         ),
+        // An implicit array has no length prefix: its elements fill the rest of the stream.
+        None if field_array.is_implicit => {
+            let field_name = TypeGenerator::convert_field_name(&field.name);
+            match field.is_optional {
+                true => format!("Some(self.{field_name}.as_ref().map_or(0, |x| x.len()))"),
+                false => format!("Some(self.{field_name}.len())"),
+            }
+        }
         None => "None".to_owned(),
     };
     function.line(format!("fixed_size: {array_length_str},"));
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index da1a820..6ae45a0 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -10,7 +10,9 @@ use crate::internal::generator::pass_parameters::{
 use crate::internal::generator::types::TypeGenerator;
 use codegen::Function;
 
-use crate::internal::generator::array::{array_type_name, initialize_array_trait};
+use crate::internal::generator::array::{
+    array_type_name, implicit_element_bitsize, initialize_array_trait,
+};
 
 use super::pass_parameters::{number_of_data_fields, number_of_fields};
 
@@ -274,10 +276,18 @@ pub fn decode_field(
     if field.array.is_some() {
         // Array fields need to be decoded using the array class, which takes care of
         // array delta compression and proper element alignment.
-        function.line(format!(
-            "let {}_array_length = {}.zserio_read_array_length(reader)?;",
-            field_details.field_name, array_type_name,
-        ));
+        if field.array.as_ref().is_some_and(|array| array.is_implicit) {
+            function.line(format!(
+                "let {}_array_length = (reader.remaining() / {}) as usize;",
+                field_details.field_name,
+                implicit_element_bitsize(&field_details.native_type.fundamental_type),
+            ));
+        } else {
+            function.line(format!(
+                "let {}_array_length = {}.zserio_read_array_length(reader)?;",
+                field_details.field_name, array_type_name,
+            ));
+        }
 
         let index_offset = match use_indexed_offset {
             false => String::from("None::<&Vec<u32>>"),
-- 
2.43.0


From c4c355dcd7fd7a7983d487611bdac63525a069c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 21/42] fix: bitmask values below the previous one; the next
 value is the next higher bit

---
 .../zserio-rs-build/src/internal/ast/zbitmask.rs   | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..7b50205 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -48,19 +48,15 @@ impl ZBitmaskType {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
-                    panic!("expression redefines bitmask value");
-                }
                 bitmask_value = expr_bitmask_value;
             }
             value.value = bitmask_value;
 
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
-            } else {
-                bitmask_value <<= 1;
-            }
+            // The next bitmask value is the bit above the most significant bit
+            // of the current one.
+            bitmask_value = 1u64
+                .checked_shl(64 - bitmask_value.leading_zeros())
+                .unwrap_or(0);
         }
         self.zserio_type.evaluate(scope);
     }
-- 
2.43.0


From 4696b80b70775dc4ad0dd81059ad94f88928ada4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 22/42] fix: expressions are evaluated and generated with
 zserio's integer, string, enum and bitmask semantics

---
 .../ast/evaluate_mixing_native_types.rs       |   9 +-
 .../src/internal/ast/expression.rs            | 146 +++++++---
 .../src/internal/generator/casts.rs           |  44 +--
 .../src/internal/generator/decode.rs          |  80 +-----
 .../src/internal/generator/encode.rs          |  29 +-
 .../src/internal/generator/expression.rs      | 258 +++++++++---------
 .../src/internal/generator/function.rs        |   7 +-
 .../src/internal/generator/zchoice.rs         |  11 +-
 .../src/internal/generator/zconst.rs          |  16 +-
 .../zserio-rs-build/src/internal/visitor.rs   |  53 +++-
 10 files changed, 355 insertions(+), 298 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..7a95719 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -48,6 +48,9 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
         "uint8" => 8,
         "uint16" => 16,
         "uint32" => 32,
+        "uint64" => 64,
+        // the bit length is not known here
+        "bit" | "int" => 64,
         "varuint16" => 15,
         "varuint32" => 29,
         "varuint64" => 57,
@@ -59,7 +62,7 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
 
 pub fn is_signed(int_type_name: &str) -> bool {
     match int_type_name {
-        "int8" => true,
+        "int" | "int8" => true,
         "int16" => true,
         "int32" => true,
         "int64" => true,
@@ -67,9 +70,10 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "varint32" => true,
         "varint64" => true,
         "varint" => true,
-        "uint8" => false,
+        "bit" | "uint8" => false,
         "uint16" => false,
         "uint32" => false,
+        "uint64" => false,
         "varuint16" => false,
         "varuint32" => false,
         "varuint64" => false,
@@ -81,6 +85,7 @@ pub fn is_signed(int_type_name: &str) -> bool {
 
 pub fn convert_to_unsigned(int_type_name: &str) -> String {
     match int_type_name {
+        "int" => "bit".into(),
         "int8" => "uint8".into(),
         "int16" => "uint16".into(),
         "int32" => "uint32".into(),
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..b9aa1e8 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -27,7 +27,7 @@ pub enum ExpressionFlag {
 
 #[derive(Clone, Debug)]
 pub enum ExpressionType {
-    Integer(i32),
+    Integer(i128),
     Float(f64),
     String(String),
     Bool(bool),
@@ -157,11 +157,11 @@ impl Expression {
     fn evaluate_array_element(&mut self, _scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => {
-                match &op1.result_type {
-                    ExpressionType::Compound => {}
-                    ExpressionType::Integer(_) => {} // for @index expressions in offset
-                    _ => panic!("unexpected array expression index type"),
-                }
+                // The result has the type of the array element.
+                self.result_type.clone_from(&op1.result_type);
+                self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
+                self.fully_resolved = false;
             }
             _ => panic!("array element requires an operand to be set"),
         }
@@ -289,8 +289,9 @@ impl Expression {
     fn evaluate_isset_expression(&mut self) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
-                (ExpressionType::BitMask(_), ExpressionType::Integer(_)) => {
+                (ExpressionType::BitMask(_), _) if op2.enum_or_bitmask().is_some() => {
                     self.result_type = ExpressionType::Bool(false);
+                    self.fully_resolved = false;
                 }
                 _ => panic!(
                     "the isset(bitmask, value_to_check) expression requires two bitmask parameters"
@@ -302,13 +303,13 @@ impl Expression {
 
     fn evaluate_valueof_operator(&mut self) {
         match &self.operand1 {
-            Some(op1) => match &op1.result_type {
-                ExpressionType::BitMask(bitmask) => {
+            Some(op1) => match op1.enum_or_bitmask() {
+                Some(ExpressionType::BitMask(bitmask)) => {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
                     self.native_type = Some(*bitmask.as_ref().borrow().zserio_type.clone());
                 },
-                ExpressionType::Enum(zenum) => {
+                Some(ExpressionType::Enum(zenum)) => {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
                     self.native_type = Some(*zenum.as_ref().borrow().enum_type.clone());
@@ -323,7 +324,7 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i32);
+                    self.result_type = ExpressionType::Integer(numbits(value as u64) as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
@@ -359,7 +360,7 @@ impl Expression {
         }
     }
 
-    fn evaluate_integer_comparison_expression(&mut self, mut value1: i32, mut value2: i32) {
+    fn evaluate_integer_comparison_expression(&mut self, mut value1: i128, mut value2: i128) {
         if !self.operand1.as_ref().unwrap().fully_resolved {
             value1 = 1;
         }
@@ -379,6 +380,18 @@ impl Expression {
         self.native_type = Some(TypeReference::new_native_type("bool"));
     }
 
+    fn evaluate_float_comparison_expression(&mut self, value1: f64, value2: f64) {
+        self.result_type = ExpressionType::Bool(match self.expression_type {
+            EQ => value1 == value2,
+            GE => value1 >= value2,
+            GT => value1 > value2,
+            LE => value1 <= value2,
+            LT => value1 < value2,
+            NE => value1 != value2,
+            _ => panic!("unexpected float comparison"),
+        });
+    }
+
     fn evaluate_comparison_expression(&mut self) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => {
@@ -390,16 +403,14 @@ impl Expression {
                     (ExpressionType::BitMask(_), ExpressionType::Integer(value2)) => {
                         self.evaluate_integer_comparison_expression(1, *value2);
                     }
+                    (ExpressionType::Integer(value1), ExpressionType::Float(value2)) => {
+                        self.evaluate_float_comparison_expression(*value1 as f64, *value2);
+                    }
+                    (ExpressionType::Float(value1), ExpressionType::Integer(value2)) => {
+                        self.evaluate_float_comparison_expression(*value1, *value2 as f64);
+                    }
                     (ExpressionType::Float(value1), ExpressionType::Float(value2)) => {
-                        self.result_type = ExpressionType::Bool(match self.expression_type {
-                            EQ => value1 == value2,
-                            GE => value1 >= value2,
-                            GT => value1 > value2,
-                            LE => value1 <= value2,
-                            LT => value1 < value2,
-                            NE => value1 != value2,
-                            _ => panic!("unexpected float comparison"),
-                        })
+                        self.evaluate_float_comparison_expression(*value1, *value2);
                     }
                     (ExpressionType::String(value1), ExpressionType::String(value2)) => {
                         self.result_type = ExpressionType::Bool(match self.expression_type {
@@ -540,12 +551,20 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
+                    let mut v1 = *value1;
+                    let mut v2 = *value2;
+                    if !op1.fully_resolved {
+                        v1 = 1;
+                    }
+                    if !op2.fully_resolved {
+                        v2 = 1;
+                    }
                     let result = match self.expression_type {
-                        AND => value1 & value2,
-                        OR => value1 | value2,
-                        XOR => value1 ^ value2,
-                        LSHIFT => value1 << value2,
-                        RSHIFT => value1 >> value2,
+                        AND => v1 & v2,
+                        OR => v1 | v2,
+                        XOR => v1 ^ v2,
+                        LSHIFT => v1 << v2,
+                        RSHIFT => v1 >> v2,
                         _ => panic!("unexpected bitwise expression"),
                     };
                     self.result_type = ExpressionType::Integer(result);
@@ -584,21 +603,27 @@ impl Expression {
     }
 
     fn evaluate_ternary_expression(&mut self) {
-        match self.operand1.as_ref().unwrap().result_type {
-            ExpressionType::Bool(condition) => {
-                if condition {
-                    let op2 = self.operand2.as_ref().unwrap();
-                    self.result_type.clone_from(&op2.result_type);
-                    self.symbol.clone_from(&op2.symbol);
-                    self.fully_resolved = op2.fully_resolved;
-                } else {
-                    let op3 = self.operand3.as_ref().unwrap();
-                    self.result_type.clone_from(&op3.result_type);
-                    self.symbol.clone_from(&op3.symbol);
-                    self.fully_resolved = op3.fully_resolved;
-                }
+        let condition = self.operand1.as_ref().unwrap();
+        match condition.result_type {
+            ExpressionType::Bool(value) => {
+                let result = match value {
+                    true => self.operand2.as_ref().unwrap(),
+                    false => self.operand3.as_ref().unwrap(),
+                };
+                self.result_type.clone_from(&result.result_type);
+                self.symbol.clone_from(&result.symbol);
+                self.fully_resolved = condition.fully_resolved && result.fully_resolved;
             }
-            _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
+            _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", condition),
+        }
+        // Mixing integer and float operands results in a float.
+        if let (ExpressionType::Integer(v), true) = (
+            &self.result_type,
+            [&self.operand2, &self.operand3]
+                .iter()
+                .any(|op| matches!(op.as_ref().unwrap().result_type, ExpressionType::Float(_))),
+        ) {
+            self.result_type = ExpressionType::Float(*v as f64);
         }
     }
 
@@ -619,6 +644,47 @@ impl Expression {
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
+
+        if let Symbol::Const(z_const) = &symbol_reference.symbol {
+            // The value of a constant is known.
+            let value_expression = z_const.borrow().value_expression.clone();
+            scope.scope_stack.push(ScopeLocation {
+                package: symbol_reference.package.clone(),
+                import_symbol: None,
+                symbol_name: None,
+            });
+            value_expression.borrow_mut().evaluate(scope);
+            scope.scope_stack.pop();
+
+            let value_expression = value_expression.borrow();
+            self.fully_resolved = value_expression.fully_resolved;
+            self.result_type = match (&self.result_type, &value_expression.result_type) {
+                (ExpressionType::Float(_), ExpressionType::Integer(v)) => {
+                    ExpressionType::Float(*v as f64)
+                }
+                (_, value) => value.clone(),
+            };
+        }
+    }
+
+    /// If the value of this expression is an item of an enum or a combination of bitmask
+    /// values, returns the type of the enum or bitmask.
+    pub fn enum_or_bitmask(&self) -> Option<&ExpressionType> {
+        let is_enum_or_bitmask =
+            |t: &ExpressionType| matches!(t, ExpressionType::Enum(_) | ExpressionType::BitMask(_));
+        fn of_operand(operand: &Option<Box<Expression>>) -> Option<&ExpressionType> {
+            operand.as_ref().and_then(|op| op.enum_or_bitmask())
+        }
+        match self.expression_type {
+            LPAREN | TILDE => of_operand(&self.operand1),
+            QUESTIONMARK => of_operand(&self.operand2),
+            AND | OR | XOR => of_operand(&self.operand1).or(of_operand(&self.operand2)),
+            DOT if is_enum_or_bitmask(&self.operand1.as_ref().unwrap().result_type) => {
+                Some(&self.operand1.as_ref().unwrap().result_type)
+            }
+            _ if is_enum_or_bitmask(&self.result_type) => Some(&self.result_type),
+            _ => None,
+        }
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/generator/casts.rs b/crates/zserio-rs-build/src/internal/generator/casts.rs
index d13505c..4e1d1db 100644
--- a/crates/zserio-rs-build/src/internal/generator/casts.rs
+++ b/crates/zserio-rs-build/src/internal/generator/casts.rs
@@ -1,29 +1,37 @@
 use crate::internal::ast::expression::{Expression, ExpressionType};
 use crate::internal::ast::type_reference::TypeReference;
+use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::types::TypeGenerator;
 
-pub fn requires_cast(
-    target_type: &TypeReference,
-    other_type: &TypeReference,
-    type_generator: &mut TypeGenerator,
-) -> bool {
-    let other_rust_type = type_generator.ztype_to_rust_type(other_type);
-    let target_rust_type = type_generator.ztype_to_rust_type(target_type);
-    other_rust_type != target_rust_type
+fn expression_requires_cast(expression: &Expression) -> bool {
+    // Numeric expressions may have any numeric type.
+    match &expression.result_type {
+        ExpressionType::Integer(_) | ExpressionType::Float(_) => {
+            expression.enum_or_bitmask().is_none()
+        }
+        _ => false,
+    }
 }
 
-pub fn expression_requires_cast(
+/// Generates the code of an expression, casted to a specific type.
+pub fn generate_casted_expression(
     target_type: &TypeReference,
-    type_generator: &mut TypeGenerator,
     expression: &Expression,
-) -> bool {
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let code = generate_expression(expression, type_generator, scope);
+    if expression_requires_cast(expression) {
+        return format!(
+            "({}) as {}",
+            code,
+            type_generator.ztype_to_rust_type(target_type)
+        );
+    }
     match &expression.result_type {
-        ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
-            match &expression.native_type {
-                Some(native_type) => requires_cast(target_type, native_type, type_generator),
-                None => false,
-            }
-        }
-        _ => false,
+        ExpressionType::String(_) => format!("({code}).to_string()"),
+        _ if expression.fully_resolved => code,
+        _ => format!("({code}).clone()"),
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 6ae45a0..5b3cb4d 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -1,6 +1,6 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::casts::expression_requires_cast;
+use crate::internal::generator::casts::generate_casted_expression;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
@@ -75,19 +75,12 @@ pub fn decode_type(
             if fund_type.bits != 0 || fund_type.length_expression.is_some() {
                 let bit_length_string = match &fund_type.length_expression {
                     Some(bit_length_expression) => {
-                        let mut length_expression_string = generate_expression(
+                        let length_expression_string = generate_expression(
                             &bit_length_expression.borrow(),
                             type_generator,
                             scope,
                         );
-                        // check if there is a typecast needed
-                        if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                            if native_type.name != "uint8" {
-                                length_expression_string =
-                                    format!("({}) as u8", length_expression_string);
-                            }
-                        }
-                        length_expression_string
+                        format!("({length_expression_string}) as u8")
                     }
                     None => format!("{}", fund_type.bits),
                 };
@@ -237,27 +230,12 @@ pub fn decode_field(
                 let type_argument = type_argument_rc.borrow();
 
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
-
-                if expression_requires_cast(
+                let rvalue = generate_casted_expression(
                     &type_parameter.borrow().zserio_type,
-                    type_generator,
                     &type_argument,
-                ) {
-                    rvalue = format!(
-                        "{} as {}",
-                        rvalue,
-                        type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                    );
-                }
+                    type_generator,
+                    scope,
+                );
 
                 function.line(format!(
                     "{}: {},",
@@ -348,26 +326,12 @@ pub fn decode_field(
                     continue;
                 }
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
-                if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
-                }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
-                if expression_requires_cast(
+                let rvalue = generate_casted_expression(
                     &type_parameter.borrow().zserio_type,
-                    type_generator,
                     &type_argument,
-                ) {
-                    rvalue = format!(
-                        "{} as {}",
-                        rvalue,
-                        type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                    );
-                }
+                    type_generator,
+                    scope,
+                );
                 function.line(format!(
                     "{}: {},",
                     TypeGenerator::convert_field_name(&type_parameter.borrow().name),
@@ -393,26 +357,12 @@ pub fn decode_field(
                         continue;
                     }
                     let type_parameter = &type_parameters[param_index];
-                    let mut requires_cloning = String::from("");
-                    if !type_argument.fully_resolved {
-                        requires_cloning = ".clone()".into();
-                    }
-                    let mut rvalue = format!(
-                        "{}{}",
-                        generate_expression(&type_argument, type_generator, scope),
-                        requires_cloning
-                    );
-                    if expression_requires_cast(
+                    let rvalue = generate_casted_expression(
                         &type_parameter.borrow().zserio_type,
-                        type_generator,
                         &type_argument,
-                    ) {
-                        rvalue = format!(
-                            "{} as {}",
-                            rvalue,
-                            type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                        );
-                    }
+                        type_generator,
+                        scope,
+                    );
                     function.line(format!(
                         "zs_item.{} = {};",
                         TypeGenerator::convert_field_name(&type_parameter.borrow().name),
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..b768594 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -2,7 +2,7 @@ use crate::internal::ast::field::Field;
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::initialize_array_trait;
-use crate::internal::generator::casts::expression_requires_cast;
+use crate::internal::generator::casts::generate_casted_expression;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
@@ -66,16 +66,9 @@ pub fn encode_type(
         } else if fund_type.bits != 0 || fund_type.length_expression.is_some() {
             let bit_length_string = match &fund_type.length_expression {
                 Some(bit_length_expression) => {
-                    let mut length_expression_string =
+                    let length_expression_string =
                         generate_expression(&bit_length_expression.borrow(), type_generator, scope);
-                    // check if there is a typecast needed
-                    if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                        if native_type.name != "uint8" {
-                            length_expression_string =
-                                format!("({}) as u8", length_expression_string);
-                        }
-                    }
-                    length_expression_string
+                    format!("({length_expression_string}) as u8")
                 }
                 None => format!("{}", fund_type.bits),
             };
@@ -240,20 +233,14 @@ pub fn encode_field(
             // the caller.
 
             // Check if casts are needed.
-            let mut rvalue = generate_expression(&type_argument, type_generator, scope);
-            if expression_requires_cast(
+            let rvalue = generate_casted_expression(
                 &type_parameter.borrow().zserio_type,
-                type_generator,
                 &type_argument,
-            ) {
-                rvalue = format!(
-                    "{} as {}",
-                    rvalue,
-                    type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
-                );
-            }
+                type_generator,
+                scope,
+            );
             function.line(format!(
-                "assert!({}.{} == {});",
+                "assert!({}.{} == ({}));",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
                 rvalue,
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..6746a52 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -18,18 +18,75 @@ pub fn generate_boolean_expression(
 ) -> String {
     let generated_code = generate_expression(expression, type_generator, scope);
     match expression.result_type {
-        ExpressionType::BitMask(_) => format!("{} != 0", generated_code),
-        ExpressionType::Integer(_) => format!("{} != 0", generated_code),
+        ExpressionType::BitMask(_) => format!("({}) != 0", generated_code),
+        ExpressionType::Integer(_) => format!("({}) != 0", generated_code),
         _ => generated_code,
     }
 }
 
+/// Returns true if the generated code for an expression is a primitive rust integer (in
+/// contrast to an enum or a bitmask).
+fn is_integer(expression: &Expression) -> bool {
+    matches!(expression.result_type, ExpressionType::Integer(_))
+        && expression.enum_or_bitmask().is_none()
+}
+
+/// Generates the code for an operand of an operator. The operands of an operator may have
+/// different types, and the result may be beyond the range of these types. As such, integers
+/// are calculated using a type that is wide enough for all zserio types, and floats as double
+/// precision floats. Where a specific type is needed, the final result is casted.
+fn generate_operand(
+    operand: &Option<Box<Expression>>,
+    float: bool,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let operand = operand.as_ref().unwrap();
+    let code = generate_expression(operand, type_generator, scope);
+    if float {
+        format!("(({code}) as f64)")
+    } else if is_integer(operand) {
+        format!("(({code}) as i128)")
+    } else {
+        code
+    }
+}
+
+/// Generates the code for an operand of a comparison. A bitmask that is compared with an
+/// integer is compared by its value.
+fn generate_comparison_operand(
+    operand: &Option<Box<Expression>>,
+    other: &Option<Box<Expression>>,
+    float: bool,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let code = generate_operand(operand, float, type_generator, scope);
+    match operand.as_ref().unwrap().enum_or_bitmask() {
+        Some(ExpressionType::BitMask(_)) if is_integer(other.as_ref().unwrap()) => {
+            format!("(({code}).bits() as i128)")
+        }
+        _ => code,
+    }
+}
+
+fn is_float(operand: &Option<Box<Expression>>) -> bool {
+    operand
+        .as_ref()
+        .is_some_and(|op| matches!(op.result_type, ExpressionType::Float(_)))
+}
+
 pub fn generate_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
     assert!(expression.evaluation_state == EvaluationState::Completed);
+    if let (ExpressionType::String(value), true) =
+        (&expression.result_type, expression.fully_resolved)
+    {
+        return format!("{value:?}");
+    }
     match expression.expression_type {
         LPAREN => format!(
             "({})",
@@ -68,90 +125,35 @@ pub fn generate_expression(
     }
 }
 
-fn generate_unary_arithmetic_expression(
-    expression: &Expression,
-    type_generator: &mut TypeGenerator,
-    scope: &ModelScope,
-) -> String {
-    format!(
-        "{}{}",
-        match expression.expression_type {
-            PLUS => "+",
-            MINUS => "-",
-            _ => panic!("unexpected unary arithmetic expression operator"),
-        },
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-    )
-}
-
 fn generate_arithmetic_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let is_float = is_float(&expression.operand1) || is_float(&expression.operand2);
+    let op1 = generate_operand(&expression.operand1, is_float, type_generator, scope);
     if expression.operand2.is_none() {
         // an arithmetic expression may be +5 or -5, i.e. a sign
         // of a float or integer expression.
-        return generate_unary_arithmetic_expression(expression, type_generator, scope);
+        return match expression.expression_type {
+            PLUS => op1,
+            MINUS => format!("(-{op1})"),
+            _ => panic!("unexpected unary arithmetic expression operator"),
+        };
     }
+    let op2 = generate_operand(&expression.operand2, is_float, type_generator, scope);
 
-    // Check if casts are required
-    let mut op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
-    let mut op2 = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
-
-    let mut expression_type = None;
-    let mut op1_rust_type = None;
-    let mut op2_rust_type = None;
-
-    // Check if casting is needed because of different original types.
-    // Casting is needed in the following cases:
-    // - mixing floats with integers
-    // - mixing signed/unsigned types
-    // - mixing different bit lengths
-    // - mixing numerals of different types
-    // Casting is not needed in the following cases:
-    // - The expression result is not an integer.
-    // - One or both operands are numerals without type annotations, for example
-    //   "17.5 + 13.6"
-    match &expression.result_type {
-        ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
-            if let Some(native_type) = &expression.native_type {
-                expression_type = Some(type_generator.ztype_to_rust_type(native_type));
-                if let Some(op1_native_type) = &expression.operand1.as_ref().unwrap().native_type {
-                    op1_rust_type = Some(type_generator.ztype_to_rust_type(op1_native_type));
-                }
-                if let Some(op2_native_type) = &expression.operand2.as_ref().unwrap().native_type {
-                    op2_rust_type = Some(type_generator.ztype_to_rust_type(op2_native_type));
-                }
-            }
-        }
-        ExpressionType::String(_) => {
-            // For string operations, using "+" sucks, due to the different issues with string
-            // ownership, and mixing "String" with "str", reference, etc. The easiest
-            // solution is to just use the format macro.
-            assert!(expression.expression_type == PLUS);
-            // Inception code
-            return format!("format!(\"{{}}{{}}\", {}, {})", op1, op2,);
-        }
-        _ => (),
+    if let ExpressionType::String(_) = &expression.result_type {
+        // For string operations, using "+" sucks, due to the different issues with string
+        // ownership, and mixing "String" with "str", reference, etc. The easiest
+        // solution is to just use the format macro.
+        assert!(expression.expression_type == PLUS);
+        // Inception code
+        return format!("format!(\"{{}}{{}}\", {}, {})", op1, op2,);
     };
 
-    // Generate the type casts
-    if let Some(result_type) = expression_type {
-        if let Some(op1_result_type) = op1_rust_type {
-            if result_type != op1_result_type {
-                op1 = format!("(({}) as {})", op1, result_type);
-            }
-        }
-        if let Some(op2_result_type) = op2_rust_type {
-            if result_type != op2_result_type {
-                op2 = format!("(({}) as {})", op2, result_type);
-            }
-        }
-    }
-
     format!(
-        "{} {} {}",
+        "({} {} {})",
         op1,
         match expression.expression_type {
             PLUS => "+",
@@ -171,30 +173,12 @@ fn generate_bracketed_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{}[{}]",
+        "{}[({}) as usize]",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
 }
 
-fn is_bitmask_expression(expression: &Expression, scope: &ModelScope) -> bool {
-    if let Some(expr_symbol) = &expression.symbol {
-        let fund_type = match &expr_symbol.symbol {
-            Symbol::Field(field) => get_fundamental_type(&field.borrow().field_type, scope),
-            Symbol::Parameter(param) => get_fundamental_type(&param.borrow().zserio_type, scope),
-            _ => return false,
-        };
-        if fund_type.fundamental_type.is_builtin {
-            return false;
-        }
-        return matches!(
-            scope.get_symbol(&fund_type.fundamental_type).symbol,
-            Symbol::Bitmask(_)
-        );
-    }
-    false
-}
-
 fn generate_dot_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -242,7 +226,7 @@ fn generate_isset_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} & ({}) != 0",
+        "(({} & ({})).bits() != 0)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope)
     )
@@ -255,18 +239,13 @@ fn generate_valueof_expression(
 ) -> String {
     let native_type = expression.native_type.as_ref().unwrap();
     let fundamental_type = get_fundamental_type(native_type, scope);
-    let bitmask_suffix = if is_bitmask_expression(expression.operand1.as_ref().unwrap(), scope) {
-        ".bits()"
-    } else {
-        ""
-    };
-
-    format!(
-        "{}{} as {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        bitmask_suffix,
-        type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
-    )
+    let rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
+    let operand = expression.operand1.as_ref().unwrap();
+    let value = generate_expression(operand, type_generator, scope);
+    match operand.enum_or_bitmask() {
+        Some(ExpressionType::BitMask(_)) => format!("(({value}).bits() as {rust_type})"),
+        _ => format!("(({value}) as {rust_type})"),
+    }
 }
 
 fn generate_lengthof_expression(
@@ -286,7 +265,7 @@ fn generate_numbits_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "(zserio::numbits({}) as u32)",
+        "(zserio::numbits(({}) as u64) as u32)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
@@ -337,16 +316,27 @@ fn generate_ternary_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    // The types of the second and third operand may differ.
+    let is_float = is_float(&expression.operand2) || is_float(&expression.operand3);
+    let condition =
+        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
+    let mut branch = |operand| {
+        let code = generate_operand(operand, is_float, type_generator, scope);
+        match expression.result_type {
+            ExpressionType::String(_) => format!("({code}).to_string()"),
+            _ => code,
+        }
+    };
     format!(
         "
-if {} {{
+(if {} {{
     {}
 }} else {{
     {}
-}}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+}})",
+        condition,
+        branch(&expression.operand2),
+        branch(&expression.operand3),
     )
 }
 
@@ -367,8 +357,8 @@ fn generate_bitwise_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "~{}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
+        "(!{})",
+        generate_operand(&expression.operand1, false, type_generator, scope)
     )
 }
 
@@ -378,8 +368,8 @@ fn generate_bitwise_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        "({} {} {})",
+        generate_operand(&expression.operand1, false, type_generator, scope),
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -388,7 +378,7 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        generate_operand(&expression.operand2, false, type_generator, scope),
     )
 }
 
@@ -398,7 +388,7 @@ fn generate_logical_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} {} {}",
+        "({} {} {})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         match expression.expression_type {
             LOGICAL_AND => "&&",
@@ -414,9 +404,16 @@ fn generate_comparison_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let is_float = is_float(&expression.operand1) || is_float(&expression.operand2);
     format!(
-        "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        "({} {} {})",
+        generate_comparison_operand(
+            &expression.operand1,
+            &expression.operand2,
+            is_float,
+            type_generator,
+            scope
+        ),
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -426,7 +423,13 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        generate_comparison_operand(
+            &expression.operand2,
+            &expression.operand1,
+            is_float,
+            type_generator,
+            scope
+        ),
     )
 }
 
@@ -444,10 +447,12 @@ fn generate_literal_expression(expression: &Expression) -> String {
     };
 
     match expression.expression_type {
-        DECIMAL_LITERAL => i32::to_string(&int_value),
+        DECIMAL_LITERAL => format!("{int_value}"),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        BINARY_LITERAL => format!("{int_value:#b}"),
+        FLOAT_LITERAL => format!("{}_f32", &float_value),
+        DOUBLE_LITERAL => format!("{}_f64", &float_value),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
@@ -455,14 +460,7 @@ fn generate_literal_expression(expression: &Expression) -> String {
                 String::from("false")
             }
         }
-        STRING_LITERAL => {
-            if expression.fully_resolved {
-                return format!("\"{}\"", &string_value);
-            }
-            // need to cast into a rust string
-            format!("\"{}\".into()", &string_value)
-        }
-
+        STRING_LITERAL => format!("{string_value:?}"),
         _ => panic!("unexpected comparison expression operator"),
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..bf5d84e 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -23,12 +23,9 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
+    if zserio_function.return_type.is_builtin && zserio_function.return_type.name == "string" {
         fn_gen_scope.line(format!(
-            "{}.clone()",
+            "({}).to_string()",
             generate_expression(
                 &zserio_function.result.as_ref().borrow(),
                 type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 7c0a56f..42a3ff7 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -2,6 +2,7 @@
 
 use codegen::{Function, Scope};
 
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zchoice::ZChoice;
 
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -152,11 +153,11 @@ pub fn generate_choice_match_construct(
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
         for case_expr in &case.conditions {
-            case_expressions.push(generate_expression(
-                &case_expr.as_ref().borrow(),
-                type_generator,
-                symbol_scope,
-            ));
+            let case_expr = case_expr.as_ref().borrow();
+            case_expressions.push(match (&case_expr.result_type, case_expr.fully_resolved) {
+                (ExpressionType::Integer(value), true) => format!("{value}"),
+                _ => generate_expression(&case_expr, type_generator, symbol_scope),
+            });
         }
         let selector_expression_evaluation = case_expressions.join(" | ");
 
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..4ef44ec 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -40,15 +41,20 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value = generate_expression(
+        &zconst.value_expression.borrow(),
+        type_generator,
+        symbol_scope,
+    );
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        match zconst.value_expression.borrow().result_type {
+            ExpressionType::Integer(_) | ExpressionType::Float(_) =>
+                format!("({value}) as {field_type}"),
+            _ => value,
+        },
     )
     .as_str();
 
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index a453e3c..57a515f 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -950,26 +950,27 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.DECIMAL_LITERAL().is_some() => ExpressionType::Integer(
                 literal_text
-                    .parse::<i32>()
+                    .parse::<i128>()
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_start_matches("0x"), 16)
-                    .expect("Not a hex number!"),
+                // skip the prefix (0x or 0X)
+                i128::from_str_radix(&literal_text[2..], 16).expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
+                i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches('b'), 2)
+                i128::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
                 assert!(literal_text.len() >= 2);
-                ExpressionType::String(literal_text[1..literal_text.len() - 1].into())
+                ExpressionType::String(unescape_string(&literal_text[1..literal_text.len() - 1]))
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
-                literal_text
+                // skip the suffix (f or F)
+                literal_text[..literal_text.len() - 1]
                     .parse::<f64>()
                     .expect("failed to parse float32 expression"),
             ),
@@ -1589,3 +1590,41 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         self.visit(&*ctx.expression().unwrap())
     }
 }
+
+/// Replaces the escape sequences in the content of a string literal.
+fn unescape_string(content: &str) -> String {
+    let mut utf16: Vec<u16> = vec![];
+    let mut chars = content.chars().peekable();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            utf16.extend(c.encode_utf16(&mut [0; 2]).iter());
+            continue;
+        }
+        let escaped = chars.next().expect("incomplete escape sequence");
+        let (radix, max_digits) = match escaped {
+            'u' => (16, 4),
+            'x' => (16, 2),
+            '0' => (8, 3),
+            _ => (0, 0),
+        };
+        let mut value = match escaped {
+            'r' => '\r' as u32,
+            'n' => '\n' as u32,
+            't' => '\t' as u32,
+            'f' => 0xc,
+            'u' | 'x' | '0' => 0,
+            _ => escaped as u32,
+        };
+        for _ in 0..max_digits {
+            match chars.peek().and_then(|c| c.to_digit(radix)) {
+                Some(digit) if value * radix + digit <= 0xffff => {
+                    value = value * radix + digit;
+                    chars.next();
+                }
+                _ => break,
+            }
+        }
+        utf16.push(value as u16);
+    }
+    String::from_utf16(&utf16).expect("invalid character in string literal")
+}
-- 
2.43.0


From eb283bfcffe72920cd8f95aa4b83242e240e2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 23/42] fix: optional bytes and extern fields are borrowed when
 they are written

---
 .../zserio-rs-build/src/internal/generator/encode.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index b768594..7c0acef 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -108,11 +108,11 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
     if !native_type.fundamental_type.is_builtin {
         return true;
     }
-    // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // for the native core types, everything that owns memory is passed by reference.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "bytes" | "extern"
+    )
 }
 
 pub fn encode_field(
-- 
2.43.0


From 479f2b804dc9a36fba44d4f901ac9f261bfd1f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 24/42] fix: a bit field length beyond 64 bits is an error
 instead of a panic or a truncated length

---
 .../zserio-rs-build/src/internal/generator/array.rs |  6 +++---
 .../src/internal/generator/bitsize.rs               |  8 +++++---
 .../src/internal/generator/decode.rs                | 11 ++++-------
 .../src/internal/generator/encode.rs                |  8 ++++----
 .../src/internal/generator/expression.rs            | 13 +++++++++++++
 crates/zserio/src/ztype/bits_decode.rs              | 10 +++++++---
 crates/zserio/src/ztype/bits_encode.rs              |  8 ++++++--
 7 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index 87d4cce..82e660d 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -2,7 +2,7 @@ use crate::internal::ast::field::Field;
 use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::expression::generate_expression;
+use crate::internal::generator::expression::{generate_bit_length, generate_expression};
 use crate::internal::generator::types::TypeGenerator;
 use codegen::Function;
 use stringcase::Caser;
@@ -62,8 +62,8 @@ pub fn initialize_array_trait(
         // Initialize the signed/unsigned bitfield array traits
         if let Some(length_expression) = &zserio_type.length_expression {
             code_str += format!(
-                "num_bits: ({}) as u8,\n",
-                generate_expression(&length_expression.borrow(), type_generator, scope)
+                "num_bits: {},\n",
+                generate_bit_length(&length_expression.borrow(), type_generator, scope)
             )
             .as_str();
         } else {
diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 602f41d..b73acb6 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -1,7 +1,9 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::encode::requires_borrowing;
-use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
+use crate::internal::generator::expression::{
+    generate_bit_length, generate_boolean_expression, generate_expression,
+};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
 use crate::internal::generator::pass_parameters::does_expression_contains_index_operator;
@@ -63,8 +65,8 @@ pub fn bitsize_type_reference(
             ));
         } else if let Some(length_expression) = &type_reference.length_expression {
             function.line(format!(
-                "end_position += ({}) as u64;",
-                generate_expression(&length_expression.borrow(), type_generator, scope)
+                "end_position += {} as u64;",
+                generate_bit_length(&length_expression.borrow(), type_generator, scope)
             ));
         } else if type_reference.bits != 0 {
             function.line(format!("end_position += {};", type_reference.bits));
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 5b3cb4d..8dbc0eb 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -1,7 +1,9 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::casts::generate_casted_expression;
-use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
+use crate::internal::generator::expression::{
+    generate_bit_length, generate_boolean_expression, generate_expression,
+};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
 use crate::internal::generator::pass_parameters::{
@@ -75,12 +77,7 @@ pub fn decode_type(
             if fund_type.bits != 0 || fund_type.length_expression.is_some() {
                 let bit_length_string = match &fund_type.length_expression {
                     Some(bit_length_expression) => {
-                        let length_expression_string = generate_expression(
-                            &bit_length_expression.borrow(),
-                            type_generator,
-                            scope,
-                        );
-                        format!("({length_expression_string}) as u8")
+                        generate_bit_length(&bit_length_expression.borrow(), type_generator, scope)
                     }
                     None => format!("{}", fund_type.bits),
                 };
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 7c0acef..92e1c96 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -3,7 +3,9 @@ use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::initialize_array_trait;
 use crate::internal::generator::casts::generate_casted_expression;
-use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
+use crate::internal::generator::expression::{
+    generate_bit_length, generate_boolean_expression, generate_expression,
+};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
 use crate::internal::generator::pass_parameters::{
@@ -66,9 +68,7 @@ pub fn encode_type(
         } else if fund_type.bits != 0 || fund_type.length_expression.is_some() {
             let bit_length_string = match &fund_type.length_expression {
                 Some(bit_length_expression) => {
-                    let length_expression_string =
-                        generate_expression(&bit_length_expression.borrow(), type_generator, scope);
-                    format!("({length_expression_string}) as u8")
+                    generate_bit_length(&bit_length_expression.borrow(), type_generator, scope)
                 }
                 None => format!("{}", fund_type.bits),
             };
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 6746a52..c44fcd0 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -76,6 +76,19 @@ fn is_float(operand: &Option<Box<Expression>>) -> bool {
         .is_some_and(|op| matches!(op.result_type, ExpressionType::Float(_)))
 }
 
+/// Generates the code for the length of a bit field. Lengths that do not exist are not
+/// truncated to valid ones, but refused when the field is read or written.
+pub fn generate_bit_length(
+    length_expression: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    format!(
+        "u8::try_from({}).unwrap_or(u8::MAX)",
+        generate_expression(length_expression, type_generator, scope)
+    )
+}
+
 pub fn generate_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..46ef1ad 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,16 +1,20 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot read more than 64 bits".into(),
+        ));
     }
     Ok(reader.read_u64(bits)?)
 }
 
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot read more than 64 bits".into(),
+        ));
     }
     Ok(reader.read_i64(bits)?)
 }
diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 3b8fe98..36747d8 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -3,7 +3,9 @@ use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot write more than 64 bits".into(),
+        ));
     }
     if bits < 64 && v >> bits != 0 {
         return Err(ZserioError::DataDoesNotFit);
@@ -13,7 +15,9 @@ pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<(
 
 pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot write more than 64 bits".into(),
+        ));
     }
     let unused_bits = 64 - bits;
     let fits = match bits {
-- 
2.43.0


From 2f48da2bef539b939192e0ae1f6b5e08bd5eabfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:33 +0000
Subject: [PATCH 25/42] fix: choice selectors and labels may be expressions,
 enum items or constants

---
 .../src/internal/ast/zchoice.rs               | 130 ++++++++++--------
 .../src/internal/generator/zchoice.rs         |   9 +-
 crates/zserio-rs-build/src/internal/model.rs  |   2 +-
 3 files changed, 82 insertions(+), 59 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zchoice.rs b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
index d74e0ef..c6441ad 100644
--- a/crates/zserio-rs-build/src/internal/ast/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
@@ -10,7 +10,8 @@ use std::rc::Rc;
 
 use std::collections::HashMap;
 
-use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, Symbol};
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
+use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, Symbol, SymbolReference};
 
 #[derive(Clone, Debug)]
 pub struct ZChoiceCase {
@@ -74,7 +75,7 @@ impl ZChoice {
         }
     }
 
-    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self) {
+    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self, scope: &ModelScope) {
         // For enumerator parameters, this function will look for choice cases that are not fully
         // described, and replaces them by a dot expression.
         // This is needed to satisfy the zserio rule:
@@ -91,64 +92,83 @@ impl ZChoice {
             return;
         }
 
+        let Some(selector_type) = self.selector_enumeration_type(scope) else {
+            return;
+        };
+        let (result_type, items) = match &selector_type.symbol {
+            Symbol::Enum(z_enum) => (
+                ExpressionType::Enum(z_enum.clone()),
+                z_enum
+                    .borrow()
+                    .items
+                    .iter()
+                    .map(|i| i.name.clone())
+                    .collect(),
+            ),
+            Symbol::Bitmask(bitmask) => (
+                ExpressionType::BitMask(bitmask.clone()),
+                bitmask
+                    .borrow()
+                    .values
+                    .iter()
+                    .map(|v| v.name.clone())
+                    .collect(),
+            ),
+            _ => (ExpressionType::Other, vec![]),
+        };
+
         for case in &mut self.cases {
-            for condition in &mut case.conditions.iter_mut() {
-                let mut dot_expression = None;
-                {
-                    let condition_expression = condition.as_ref().borrow();
-                    if condition_expression.expression_type == ID {
-                        match &self
-                            .selector_expression
-                            .as_ref()
-                            .borrow()
-                            .symbol
-                            .as_ref()
-                            .unwrap()
-                            .symbol
-                        {
-                            Symbol::Parameter(p) => {
-                                let mut operand2 = Box::from(condition_expression.clone());
-                                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
-
-                                dot_expression = Option::from(Expression {
-                                    expression_type: DOT,
-                                    flag: ExpressionFlag::None,
-                                    operand1: Option::from(Box::new(Expression {
-                                        expression_type: ID,
-                                        text: p.as_ref().borrow().zserio_type.name.clone(),
-                                        flag: ExpressionFlag::None,
-                                        operand1: None,
-                                        operand2: None,
-                                        operand3: None,
-                                        result_type: ExpressionType::Other,
-                                        symbol: None,
-                                        fully_resolved: false,
-                                        evaluation_state: EvaluationState::NotEvaluated,
-                                        native_type: None,
-                                    })),
-                                    operand2: Option::from(operand2),
-                                    operand3: None,
-                                    text: "".into(),
-                                    result_type: ExpressionType::Other,
-                                    symbol: None,
-                                    fully_resolved: false,
-                                    evaluation_state: EvaluationState::NotEvaluated,
-                                    native_type: None,
-                                });
-                            }
-                            _ => panic!("selector expression is not a parameter"),
-                        }
-                    }
-                }
-                if let Some(new_dot_expression) = dot_expression {
-                    // TODO fully understand how the rust FnOnce() works. Using
-                    // replace_with() would make this function non-mutable.
-                    //condition.replace_with(|dot_expression| dot_expression.clone());
-                    *condition = Rc::from(RefCell::from(new_dot_expression));
+            for condition in &mut case.conditions {
+                let mut operand2 = Box::from(condition.borrow().clone());
+                if operand2.expression_type != ID || !items.contains(&operand2.text) {
+                    continue;
                 }
+                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
+
+                *condition = Rc::from(RefCell::from(Expression {
+                    expression_type: DOT,
+                    flag: ExpressionFlag::None,
+                    operand1: Option::from(Box::new(Expression {
+                        expression_type: ID,
+                        text: selector_type.name.clone(),
+                        flag: ExpressionFlag::None,
+                        operand1: None,
+                        operand2: None,
+                        operand3: None,
+                        result_type: result_type.clone(),
+                        symbol: Some(selector_type.clone()),
+                        fully_resolved: false,
+                        evaluation_state: EvaluationState::Completed,
+                        native_type: None,
+                    })),
+                    operand2: Option::from(operand2),
+                    operand3: None,
+                    text: "".into(),
+                    result_type: ExpressionType::Other,
+                    symbol: None,
+                    fully_resolved: false,
+                    evaluation_state: EvaluationState::NotEvaluated,
+                    native_type: None,
+                }));
             }
         }
     }
+
+    /// The enum or bitmask the selector is of, if any.
+    fn selector_enumeration_type(&self, scope: &ModelScope) -> Option<SymbolReference> {
+        let selector = self.selector_expression.borrow();
+        let selector_type = match &selector.symbol.as_ref()?.symbol {
+            Symbol::Parameter(param) => param.borrow().zserio_type.clone(),
+            Symbol::Field(field) => field.borrow().field_type.clone(),
+            Symbol::Function(function) => function.borrow().return_type.clone(),
+            _ => return None,
+        };
+        let selector_type = get_fundamental_type(&selector_type, scope);
+        if selector_type.fundamental_type.is_builtin {
+            return None;
+        }
+        Some(scope.get_symbol(&selector_type.fundamental_type))
+    }
 }
 
 pub fn add_choice_to_scope(z_choice: &Rc<RefCell<ZChoice>>, package_scope: &mut PackageScope) {
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 42a3ff7..47e6a50 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -144,11 +144,14 @@ pub fn generate_choice_match_construct(
     packed: Option<bool>, // None if no array is processed
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
-    let selector_name =
-        TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
+    let selector = generate_expression(
+        &zchoice.selector_expression.borrow(),
+        type_generator,
+        symbol_scope,
+    );
     let mut context_node_index = 0;
 
-    code_gen_fn.line(format!("match self.{} {{", selector_name));
+    code_gen_fn.line(format!("match {selector} {{"));
 
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index bb0af7e..793aca5 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -241,7 +241,7 @@ impl Model {
                 z_choice.borrow().evaluate_selector_expression(scope);
                 z_choice
                     .borrow_mut()
-                    .add_enumeration_type_prefix_to_choice_cases();
+                    .add_enumeration_type_prefix_to_choice_cases(scope);
                 z_choice.borrow().evaluate(scope);
 
                 scope.scope_stack.pop();
-- 
2.43.0


From c24e5f42feef8c9253e621455b755d19e75b30d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:04 +0000
Subject: [PATCH 26/42] fix: enums and bitmasks over subtypes and beyond the
 range of i64; constants of enum and bitmask types

---
 .../src/internal/ast/expression.rs            |  4 ++++
 .../src/internal/compiler/resolve_types.rs    | 14 +++++++++++
 .../src/internal/generator/zbitmask.rs        | 12 ++++------
 .../src/internal/generator/zconst.rs          | 22 ++++++++++-------
 .../src/internal/generator/zenum.rs           | 18 +++++++-------
 crates/zserio-rs-build/src/internal/model.rs  | 24 +++++++++++++++++--
 6 files changed, 67 insertions(+), 27 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index b9aa1e8..8e18df4 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -662,6 +662,10 @@ impl Expression {
                 (ExpressionType::Float(_), ExpressionType::Integer(v)) => {
                     ExpressionType::Float(*v as f64)
                 }
+                // The value of an enum or bitmask constant is applied in the generated code.
+                (ExpressionType::Enum(_) | ExpressionType::BitMask(_), _) => {
+                    self.result_type.clone()
+                }
                 (_, value) => value.clone(),
             };
         }
diff --git a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
index b2cef2a..f69af16 100644
--- a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
@@ -1,6 +1,8 @@
 use crate::internal::ast::type_reference::TypeReference;
+use crate::internal::ast::zbitmask::ZBitmaskType;
 use crate::internal::ast::zchoice::ZChoice;
 use crate::internal::ast::zconst::ZConst;
+use crate::internal::ast::zenum::ZEnum;
 use crate::internal::ast::zstruct::ZStruct;
 use crate::internal::ast::zsubtype::Subtype;
 use crate::internal::ast::zunion::ZUnion;
@@ -79,6 +81,18 @@ pub fn resolve_constant(zconst: &mut ZConst, scope: &ModelScope) {
     resolve_type_reference(&mut zconst.zserio_type, scope);
 }
 
+/// Resolves the underlying type of an enum, and assigns the full package path
+/// to the type reference.
+pub fn resolve_enum(z_enum: &mut ZEnum, scope: &ModelScope) {
+    resolve_type_reference(&mut z_enum.enum_type, scope);
+}
+
+/// Resolves the underlying type of a bitmask, and assigns the full package path
+/// to the type reference.
+pub fn resolve_bitmask(z_bitmask: &mut ZBitmaskType, scope: &ModelScope) {
+    resolve_type_reference(&mut z_bitmask.zserio_type, scope);
+}
+
 pub fn resolve_type_reference(type_reference: &mut TypeReference, scope: &ModelScope) {
     if type_reference.is_builtin {
         return;
diff --git a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
index f7449b2..ae4f3d0 100644
--- a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
@@ -63,9 +63,9 @@ pub fn generate_bitmask(
     z_impl.impl_trait("ztype::ZserioPackableObject");
 
     // generate the functions to serialize/deserialize
-    generate_zserio_read(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_read(scope, type_generator, z_impl, &fundamental_type);
     generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -92,7 +92,6 @@ fn generate_zserio_read(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let zserio_read_fn = impl_codegen.new_fn("zserio_read");
@@ -105,7 +104,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+            zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -122,7 +121,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     ));
     decode_type(
         scope,
@@ -182,12 +181,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(self.bits as {})",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index 4ef44ec..735b8fb 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -25,10 +25,12 @@ pub fn generate_constant(
     // Constants are not yet supported by the code generator - generate them manually.
     let mut file_content = codegen_scope.to_string();
 
-    // Generate the constants using the fundamental type. Consts can only use native types.
+    // Generate the constants using the fundamental type. Consts can only use native types,
+    // enums and bitmasks.
     let fundamental_type = get_fundamental_type(zconst.zserio_type.as_ref(), symbol_scope);
     assert!(
-        fundamental_type.fundamental_type.is_builtin,
+        fundamental_type.fundamental_type.is_builtin
+            || zconst.value_expression.borrow().enum_or_bitmask().is_some(),
         "const types need to be fundamental zserio types, but found {:?}",
         fundamental_type.fundamental_type
     );
@@ -41,17 +43,19 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
-    let value = generate_expression(
-        &zconst.value_expression.borrow(),
-        type_generator,
-        symbol_scope,
-    );
+    let value_expression = zconst.value_expression.borrow();
+    let value = match value_expression.result_type {
+        // Not all functions used by expressions can be called in constants.
+        ExpressionType::Integer(v) if value_expression.fully_resolved => v.to_string(),
+        _ => generate_expression(&value_expression, type_generator, symbol_scope),
+    };
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        match zconst.value_expression.borrow().result_type {
-            ExpressionType::Integer(_) | ExpressionType::Float(_) =>
+        match value_expression.result_type {
+            ExpressionType::Integer(_) | ExpressionType::Float(_)
+                if fundamental_type.fundamental_type.is_builtin =>
                 format!("({value}) as {field_type}"),
             _ => value,
         },
diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 7ad0bf0..2a6e282 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -30,6 +30,7 @@ pub fn generate_enum(
     // generate the struct itself
     let gen_enum = gen_scope.new_enum(&rust_type_name);
     gen_enum.vis("pub");
+    gen_enum.repr(&rust_type_type);
     gen_enum.derive("Debug");
     gen_enum.derive("Default");
     gen_enum.derive("Clone");
@@ -78,7 +79,8 @@ pub fn generate_enum(
         }
         from_int_fn.line(format!(
             "{} => Ok({}::{}),",
-            enum_value,
+            // Values beyond the range of i64 are passed in two's complement.
+            enum_value as i64,
             rust_type_name,
             convert_to_enum_field_name(&item.name)
         ));
@@ -97,8 +99,8 @@ pub fn generate_enum(
 
     // generate the functions to serialize/deserialize
     generate_zserio_read(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_write(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zenum, &fundamental_type);
+    generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -142,7 +144,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(&zenum.enum_type.name).unwrap()
+            zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -159,7 +161,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     ));
     decode_type(
         scope,
@@ -179,12 +181,11 @@ fn generate_zserio_write(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let zserio_write_fn = impl_codegen.new_fn("zserio_write");
@@ -223,12 +224,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 793aca5..2b11546 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::package::ZPackage;
 use crate::internal::compiler::resolve_types::{
-    resolve_choice_types, resolve_constant, resolve_struct_types, resolve_subtype,
-    resolve_union_types,
+    resolve_bitmask, resolve_choice_types, resolve_constant, resolve_enum, resolve_struct_types,
+    resolve_subtype, resolve_union_types,
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
@@ -127,6 +127,26 @@ impl Model {
                 resolve_constant(&mut zconstant.borrow_mut(), scope);
                 scope.scope_stack.pop();
             }
+
+            for z_enum in &pkg.enums {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_enum.borrow().name.clone()),
+                });
+                resolve_enum(&mut z_enum.borrow_mut(), scope);
+                scope.scope_stack.pop();
+            }
+
+            for z_bitmask in &pkg.bitmask_types {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_bitmask.borrow().name.clone()),
+                });
+                resolve_bitmask(&mut z_bitmask.borrow_mut(), scope);
+                scope.scope_stack.pop();
+            }
         }
     }
 
-- 
2.43.0


From cc9aeee933b3c01080b0a8a24f980d31e7a32499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 27/42] fix: names resolve to the declaration that the imports
 select; qualified names; packages inside of packages

---
 .../src/internal/ast/expression.rs            |  46 ++++++-
 .../src/internal/compiler/resolve_types.rs    |   5 +-
 .../src/internal/compiler/symbol_scope.rs     | 116 +++++++++++-------
 .../compiler/template_instantiation.rs        |   2 +-
 .../src/internal/generator/mod_file.rs        |  45 +++++--
 .../src/internal/generator/model.rs           |  12 +-
 .../src/internal/generator/package.rs         |   3 +
 7 files changed, 162 insertions(+), 67 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 8e18df4..e440576 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -83,6 +83,8 @@ impl Expression {
         );
         self.evaluation_state = EvaluationState::InProgress;
 
+        self.evaluate_qualified_name(scope);
+
         // evaluate all operands. The final expression can only be fully resolved if all operands
         // are also fully resolved.
         self.fully_resolved = true;
@@ -123,6 +125,43 @@ impl Expression {
         self.evaluation_state = EvaluationState::Completed;
     }
 
+    /// Returns the name of a chain of identifiers, e.g. "package.name.SYMBOL".
+    fn get_qualified_name(&self) -> Option<String> {
+        match self.expression_type {
+            ID => Some(self.text.clone()),
+            DOT => {
+                let package = self.operand1.as_ref()?.get_qualified_name()?;
+                let name = &self.operand2.as_ref()?.text;
+                Some(format!("{package}.{name}"))
+            }
+            _ => None,
+        }
+    }
+
+    /// A dot expression may also be the name of a symbol including its package. In that
+    /// case, turn it into an identifier.
+    fn evaluate_qualified_name(&mut self, scope: &ModelScope) {
+        if self.expression_type != DOT {
+            return;
+        }
+        let Some(qualified_name) = self.get_qualified_name() else {
+            return;
+        };
+        let (first, _) = qualified_name.split_once('.').unwrap();
+        let (package, name) = qualified_name.rsplit_once('.').unwrap();
+        if scope.find_symbol(&first.into(), false).is_some() {
+            return;
+        }
+        let package_scope = scope.package_scopes.get(package);
+        if let Some(symbol) = package_scope.and_then(|p| p.find_file_symbol(&name.into())) {
+            self.expression_type = ID;
+            self.text = name.into();
+            self.operand1 = None;
+            self.operand2 = None;
+            self.symbol = Some(symbol);
+        }
+    }
+
     fn evaluate_paranthesized_expression(&mut self) {
         match &self.operand1 {
             Some(op1) => {
@@ -640,7 +679,10 @@ impl Expression {
             // value will be evaluated when the complete dot expression is evaluated.
             return;
         }
-        let symbol_reference = scope.resolve_symbol(&self.text, false);
+        let symbol_reference = match &self.symbol {
+            Some(symbol_reference) => symbol_reference.clone(),
+            None => scope.resolve_symbol(&self.text, false),
+        };
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
@@ -764,6 +806,6 @@ fn type_reference_to_expression_type(
         }
     } else {
         // Resolve the symbol recursively, until a fundamental type is found.
-        symbol_to_expression_type(&scope.resolve_symbol(&type_ref.name, true), scope)
+        symbol_to_expression_type(&scope.resolve_type(type_ref), scope)
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
index f69af16..cf9ecfd 100644
--- a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
@@ -97,8 +97,5 @@ pub fn resolve_type_reference(type_reference: &mut TypeReference, scope: &ModelS
     if type_reference.is_builtin {
         return;
     }
-    let symbol_ref = scope.resolve_symbol(&type_reference.name, true);
-    if type_reference.package.is_empty() {
-        type_reference.package.clone_from(&symbol_ref.package);
-    }
+    type_reference.package = scope.resolve_type(type_reference).package;
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0bbb258..7ec383e 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -16,7 +16,7 @@ use crate::internal::ast::{
 };
 
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::rc::Rc;
 
 /// This enum is used to cover any possible type of symbols.
@@ -98,7 +98,15 @@ impl ModelScope {
     pub fn get_symbol(&self, type_ref: &TypeReference) -> SymbolReference {
         match self.package_scopes.get(&type_ref.package) {
             Some(package_scope) => package_scope.get_symbol(&type_ref.name),
-            _ => panic!(""),
+            _ => panic!("reference to unknown package {:?}", type_ref),
+        }
+    }
+
+    /// Resolves a type reference. References with a package are resolved in that package.
+    pub fn resolve_type(&self, type_ref: &TypeReference) -> SymbolReference {
+        match type_ref.package.is_empty() {
+            true => self.resolve_symbol(&type_ref.name, true),
+            false => self.get_symbol(type_ref),
         }
     }
 
@@ -108,6 +116,18 @@ impl ModelScope {
         name: &String,
         ignore_symbol_local_scopes: bool,
     ) -> SymbolReference {
+        self.find_symbol(name, ignore_symbol_local_scopes)
+            // If this line is reached, the symbol lookup has failed, and the symbol
+            // was not found anywhere.
+            .unwrap_or_else(|| panic!("symbol not found: {:?}", name))
+    }
+
+    /// Searches a symbol based on the imports in the current package.
+    pub fn find_symbol(
+        &self,
+        name: &String,
+        ignore_symbol_local_scopes: bool,
+    ) -> Option<SymbolReference> {
         let evaluation_scope = self.scope_stack.last().unwrap();
         let package_scope = self.package_scopes.get(&evaluation_scope.package).unwrap();
 
@@ -115,48 +135,49 @@ impl ModelScope {
         if let Some(symbol) =
             package_scope.resolve_symbol(name, ignore_symbol_local_scopes, evaluation_scope)
         {
-            return symbol;
+            return Some(symbol);
         }
 
-        // Try to find the symbol in the imported packages.
-        let mut imports_to_process = vec![];
-        for reference in package_scope.imports.iter() {
-            imports_to_process.push(reference);
-        }
-
-        while !imports_to_process.is_empty() {
-            let mut new_imports_to_process = vec![];
-
-            for import in imports_to_process {
-                let package_name = import.package_dir.join(".");
-                let imported_package = self
-                    .package_scopes
-                    .get(&package_name)
-                    .unwrap_or_else(|| panic!("reference to unknown package {package_name}"));
-                if let Some(symbol) = imported_package.resolve_symbol(
-                    name,
-                    ignore_symbol_local_scopes,
-                    &ScopeLocation {
-                        package: package_name,
-                        import_symbol: import.symbol_name.clone(),
-                        symbol_name: None,
-                    },
-                ) {
-                    return symbol;
+        // Symbols that are imported by their name go before symbols of packages
+        // that are imported entirely.
+        for import_by_name in [true, false] {
+            for import in &package_scope.imports {
+                if match &import.symbol_name {
+                    Some(symbol_name) => import_by_name && symbol_name == name,
+                    None => !import_by_name,
+                } {
+                    let imported_package = self.get_imported_package(import);
+                    if let Some(symbol) = imported_package.find_file_symbol(name) {
+                        return Some(symbol);
+                    }
                 }
+            }
+        }
 
-                // If the symbol was not found in one of the current imports,
-                // it may be located in an import of the current import. Keep
-                // track of them to process them later.
-                new_imports_to_process.extend(&imported_package.imports);
+        // Try to find the symbol in the imported packages. If the symbol was not found
+        // in one of the current imports, it may be located in an import of the current
+        // import.
+        let mut processed_packages = vec![];
+        let mut imports_to_process: VecDeque<&ZImport> = package_scope.imports.iter().collect();
+        while let Some(import) = imports_to_process.pop_front() {
+            let imported_package = self.get_imported_package(import);
+            if processed_packages.contains(&&imported_package.name) {
+                continue;
+            }
+            if let Some(symbol) = imported_package.find_file_symbol(name) {
+                return Some(symbol);
             }
-            // If the symbol was not found, it may be found in an import of the
-            // packages that were just processed.
-            imports_to_process = new_imports_to_process;
+            processed_packages.push(&imported_package.name);
+            imports_to_process.extend(&imported_package.imports);
         }
-        // If this line is reached, the symbol lookup has failed, and the symbol
-        // was not found anywhere.
-        panic!("symbol not found: {:?}", name);
+        None
+    }
+
+    fn get_imported_package(&self, import: &ZImport) -> &PackageScope {
+        let package_name = import.package_dir.join(".");
+        self.package_scopes
+            .get(&package_name)
+            .unwrap_or_else(|| panic!("reference to unknown package {package_name}"))
     }
 }
 
@@ -229,15 +250,16 @@ impl PackageScope {
         }
 
         // second, search in the package scope
-        if let Some(symbol) = self.file_symbols.get(name) {
-            return Option::from(SymbolReference {
-                symbol: symbol.clone(),
-                name: get_symbol_name(symbol),
-                package: self.name.clone(),
-            });
-        }
-        // The symbol was not found in the current package.
-        None
+        self.find_file_symbol(name)
+    }
+
+    /// Searches for a symbol that is declared by the package.
+    pub fn find_file_symbol(&self, name: &String) -> Option<SymbolReference> {
+        self.file_symbols.get(name).map(|symbol| SymbolReference {
+            symbol: symbol.clone(),
+            name: get_symbol_name(symbol),
+            package: self.name.clone(),
+        })
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index a429423..11e94ba 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -36,7 +36,7 @@ pub fn instantiate_type(
         new_type_name = generate_instantiated_name(zserio_type);
     }
 
-    let symbol = scope.resolve_symbol(&zserio_type.name, true);
+    let symbol = scope.resolve_type(zserio_type);
     match symbol.symbol {
         Symbol::Struct(s) => {
             return instantiate_struct(
diff --git a/crates/zserio-rs-build/src/internal/generator/mod_file.rs b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
index 230bf37..a45ec73 100644
--- a/crates/zserio-rs-build/src/internal/generator/mod_file.rs
+++ b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
@@ -7,7 +7,9 @@ use std::collections::HashMap;
 use std::path::Path;
 use std::rc::Rc;
 
-struct ZserioModuleTreeNode {
+pub struct ZserioModuleTreeNode {
+    /// True if there is a package with this name, i.e. the module has its own file.
+    is_package: bool,
     children: HashMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
 }
 
@@ -31,6 +33,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
         current_node.borrow_mut().children.insert(
             rust_module_name.clone(),
             Rc::from(RefCell::from(ZserioModuleTreeNode {
+                is_package: false,
                 children: HashMap::new(),
             })),
         );
@@ -42,6 +45,35 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
             .clone();
         current_node = new_node;
     }
+    current_node.borrow_mut().is_package = true;
+}
+
+/// Reorganizes the packages into a tree structure, categorized by module.
+fn create_module_tree(model: &Model) -> Rc<RefCell<ZserioModuleTreeNode>> {
+    let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
+        is_package: false,
+        children: HashMap::new(),
+    }));
+
+    for package in model.packages.values() {
+        add_package_to_tree(&module_tree_root, &package.name);
+    }
+    module_tree_root
+}
+
+/// Generates the module declarations of all packages that are located inside of a package.
+pub fn generate_child_modules(model: &Model, pkg_name: &str) -> String {
+    let mut current_node = create_module_tree(model);
+    for module_path in pkg_name.split('.') {
+        let rust_module_name = TypeGenerator::to_rust_module_name(module_path);
+        let child_node = current_node.borrow().children[&rust_module_name].clone();
+        current_node = child_node;
+    }
+    let mut file_content = String::from("");
+    for (child_name, child_node) in current_node.borrow().children.iter().sorted_by_key(|x| x.0) {
+        generate_mod_section(&mut file_content, child_name, child_node, 2);
+    }
+    file_content
 }
 
 fn generate_mod_section(
@@ -57,7 +89,7 @@ fn generate_mod_section(
             *file_content += "#[rustfmt::skip]\n";
         }
 
-        if module_tree_node.borrow().children.is_empty() {
+        if module_tree_node.borrow().is_package {
             *file_content += format!("pub mod {};\n", mod_name).as_str();
             return;
         }
@@ -82,14 +114,7 @@ fn generate_mod_section(
 /// This function generates the top-level mod file, which adds all generated packages
 /// to the known packages.
 pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
-    // Reorganize the packages into a tree structure, categorized by module.
-    let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
-        children: HashMap::new(),
-    }));
-
-    for package in model.packages.values() {
-        add_package_to_tree(&module_tree_root, &package.name);
-    }
+    let module_tree_root = create_module_tree(model);
 
     // Generate the mod.rs file content.
     let mut mod_file_content = String::from("");
diff --git a/crates/zserio-rs-build/src/internal/generator/model.rs b/crates/zserio-rs-build/src/internal/generator/model.rs
index 29a612b..e721d5f 100644
--- a/crates/zserio-rs-build/src/internal/generator/model.rs
+++ b/crates/zserio-rs-build/src/internal/generator/model.rs
@@ -1,4 +1,4 @@
-use crate::internal::generator::mod_file::generate_top_level_mod_file;
+use crate::internal::generator::mod_file::{generate_child_modules, generate_top_level_mod_file};
 use crate::internal::generator::package::generate_package;
 use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
@@ -8,11 +8,17 @@ use std::path::Path;
 pub fn generate_model(model: &mut Model, package_directory: &Path, root_package: &str) {
     let mut type_generator = TypeGenerator::new(root_package.to_owned());
 
-    let scope = &mut model.scope;
+    let scope = &model.scope;
     // Generate the rust interface files for all packages.
     for package in model.packages.values() {
         info!("generating rust code for package {0}...", package.name);
-        generate_package(&mut type_generator, scope, package, package_directory);
+        generate_package(
+            &mut type_generator,
+            scope,
+            package,
+            package_directory,
+            &generate_child_modules(model, &package.name),
+        );
     }
 
     // Generate the overall mod file.
diff --git a/crates/zserio-rs-build/src/internal/generator/package.rs b/crates/zserio-rs-build/src/internal/generator/package.rs
index 8fa410a..c18d86b 100644
--- a/crates/zserio-rs-build/src/internal/generator/package.rs
+++ b/crates/zserio-rs-build/src/internal/generator/package.rs
@@ -14,6 +14,7 @@ pub fn generate_package(
     symbol_scope: &ModelScope,
     package: &ZPackage,
     package_directory: &Path,
+    child_modules: &str,
 ) {
     let package_name = &package.name;
     let mut module_names = Vec::new();
@@ -166,6 +167,8 @@ pub fn generate_package(
         mod_file_content += format!("pub mod {module_name};\n").as_str();
     }
 
+    mod_file_content += child_modules;
+
     for module_name in &module_names {
         mod_file_content += format!("pub use {module_name}::*;\n").as_str();
     }
-- 
2.43.0


From 3f365663f32ce71e7b2747943f82c66ccf48468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 28/42] fix: template instantiations have their own names,
 expressions and the scope of their template

---
 .../src/internal/compiler/symbol_scope.rs     |  27 +-
 .../compiler/template_instantiation.rs        | 462 ++++++++++++------
 crates/zserio-rs-build/src/internal/model.rs  |   6 +-
 3 files changed, 335 insertions(+), 160 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 7ec383e..2c461e4 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -16,7 +16,7 @@ use crate::internal::ast::{
 };
 
 use std::cell::RefCell;
-use std::collections::{HashMap, VecDeque};
+use std::collections::{HashMap, HashSet, VecDeque};
 use std::rc::Rc;
 
 /// This enum is used to cover any possible type of symbols.
@@ -54,6 +54,9 @@ pub struct PackageScope {
 
     // These symbols are defined in other files.
     pub imports: Vec<ZImport>,
+
+    // The names of the types that are instantiations of templates.
+    pub instantiated_types: HashSet<String>,
 }
 
 pub struct ScopeLocation {
@@ -173,6 +176,22 @@ impl ModelScope {
         None
     }
 
+    /// Searches for a symbol that is visible in a package.
+    pub fn find_symbol_in_package(
+        &mut self,
+        package: &str,
+        name: &String,
+    ) -> Option<SymbolReference> {
+        self.scope_stack.push(ScopeLocation {
+            package: package.into(),
+            import_symbol: None,
+            symbol_name: None,
+        });
+        let symbol = self.find_symbol(name, true);
+        self.scope_stack.pop();
+        symbol
+    }
+
     fn get_imported_package(&self, import: &ZImport) -> &PackageScope {
         let package_name = import.package_dir.join(".");
         self.package_scopes
@@ -188,6 +207,7 @@ impl PackageScope {
             local_symbols: HashMap::new(),
             file_symbols: HashMap::new(),
             imports: package.imports.to_vec(),
+            instantiated_types: HashSet::new(),
         };
 
         for zconst in &package.consts {
@@ -253,6 +273,11 @@ impl PackageScope {
         self.find_file_symbol(name)
     }
 
+    /// Returns if a name is used by a type which is no instantiation of a template.
+    pub fn is_declared_and_not_instantiated(&self, name: &String) -> bool {
+        self.file_symbols.contains_key(name) && !self.instantiated_types.contains(name)
+    }
+
     /// Searches for a symbol that is declared by the package.
     pub fn find_file_symbol(&self, name: &String) -> Option<SymbolReference> {
         self.file_symbols.get(name).map(|symbol| SymbolReference {
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 11e94ba..53a1f8d 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,4 +1,4 @@
-use crate::internal::ast::expression::Expression;
+use crate::internal::ast::expression::{Expression, ExpressionFlag};
 use crate::internal::ast::field::Field;
 use crate::internal::ast::package::ZPackage;
 use crate::internal::ast::parameter::Parameter;
@@ -9,10 +9,130 @@ use crate::internal::ast::zstruct::{add_struct_to_scope, ZStruct};
 use crate::internal::ast::zunion::{add_zunion_to_scope, ZUnion};
 
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::parser::gen::zserioparser::ID;
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
+/// What the names inside of a template mean for one of its instantiations.
+pub struct TemplateContext {
+    /// The package which declares the template.
+    package: String,
+    /// The instantiated types of the template parameters.
+    instantiated_types: HashMap<String, TypeReference>,
+    /// The names of the fields, parameters and functions of the template.
+    members: HashSet<String>,
+}
+
+impl TemplateContext {
+    fn new(
+        package: &str,
+        fields: &[Rc<RefCell<Field>>],
+        type_parameters: &[Rc<RefCell<Parameter>>],
+        functions: &[Rc<RefCell<ZFunction>>],
+    ) -> Self {
+        let mut members = HashSet::new();
+        members.extend(fields.iter().map(|f| f.borrow().name.clone()));
+        members.extend(type_parameters.iter().map(|p| p.borrow().name.clone()));
+        members.extend(functions.iter().map(|f| f.borrow().name.clone()));
+        TemplateContext {
+            package: package.into(),
+            instantiated_types: HashMap::new(),
+            members,
+        }
+    }
+
+    /// Replaces the template parameters in a type reference, and assigns the package to all
+    /// other types.
+    fn bind_type(&self, scope: &mut ModelScope, type_reference: &TypeReference) -> TypeReference {
+        let mut new_type = type_reference.clone();
+        match self.instantiated_types.get(&type_reference.name) {
+            Some(instantiated_type) if type_reference.package.is_empty() => {
+                new_type = instantiated_type.clone();
+            }
+            _ => {
+                if !new_type.is_builtin && new_type.package.is_empty() {
+                    new_type.package = scope
+                        .find_symbol_in_package(&self.package, &new_type.name)
+                        .unwrap_or_else(|| panic!("symbol not found: {:?}", new_type.name))
+                        .package;
+                }
+                for template_argument in &mut new_type.template_arguments {
+                    *template_argument = self.bind_type(scope, template_argument);
+                }
+                new_type.length_expression =
+                    self.bind_expression(scope, &type_reference.length_expression);
+            }
+        }
+        new_type.type_arguments = self.bind_expressions(scope, &type_reference.type_arguments);
+        new_type
+    }
+
+    /// Assigns the package to all template arguments of a type reference.
+    fn bind_template_arguments(
+        &self,
+        scope: &mut ModelScope,
+        type_reference: &TypeReference,
+    ) -> TypeReference {
+        let mut new_type = type_reference.clone();
+        for template_argument in &mut new_type.template_arguments {
+            *template_argument = self.bind_type(scope, template_argument);
+        }
+        new_type
+    }
+
+    /// Creates a copy of expressions for an instantiation of a template.
+    fn bind_expressions(
+        &self,
+        scope: &mut ModelScope,
+        expressions: &[Rc<RefCell<Expression>>],
+    ) -> Vec<Rc<RefCell<Expression>>> {
+        expressions
+            .iter()
+            .map(|e| {
+                let mut new_expression = e.borrow().clone();
+                self.bind_identifiers(scope, &mut new_expression);
+                Rc::new(RefCell::new(new_expression))
+            })
+            .collect()
+    }
+
+    fn bind_expression(
+        &self,
+        scope: &mut ModelScope,
+        expression: &Option<Rc<RefCell<Expression>>>,
+    ) -> Option<Rc<RefCell<Expression>>> {
+        self.bind_expressions(scope, expression.as_slice()).pop()
+    }
+
+    /// Binds identifiers, which do not refer to members of the template, to their declaration.
+    fn bind_identifiers(&self, scope: &mut ModelScope, expression: &mut Expression) {
+        for operand in [
+            &mut expression.operand1,
+            &mut expression.operand2,
+            &mut expression.operand3,
+        ]
+        .into_iter()
+        .flatten()
+        {
+            self.bind_identifiers(scope, operand);
+        }
+        if expression.expression_type != ID
+            || expression.flag == ExpressionFlag::IsDotExpressionRightOperand
+            || self.members.contains(&expression.text)
+        {
+            return;
+        }
+        expression.symbol = match self.instantiated_types.get(&expression.text) {
+            Some(instantiated_type) if !instantiated_type.is_builtin => {
+                expression.text.clone_from(&instantiated_type.name);
+                Some(scope.get_symbol(instantiated_type))
+            }
+            _ => scope.find_symbol_in_package(&self.package, &expression.text),
+        };
+    }
+}
+
 /// Instantiates a templated type reference.
 /// If a non-templated type reference is passed, a clone of that reference will be returned.
 /// If the type reference is templated, the template will be instantiated, and the instantiated
@@ -30,10 +150,20 @@ pub fn instantiate_type(
         return zserio_type.clone();
     }
 
+    // The template arguments are names of the package that is using the template.
+    let zserio_type =
+        &TemplateContext::new(&pkg.name, &[], &[], &[]).bind_template_arguments(scope, zserio_type);
+
     let mut new_type_name = String::from(name);
     if new_type_name.is_empty() {
         // in case no name is provided, a new name needs to be generated.
-        new_type_name = generate_instantiated_name(zserio_type);
+        new_type_name = generate_instantiated_name(zserio_type, scope);
+        while scope
+            .get_package_scope()
+            .is_declared_and_not_instantiated(&new_type_name)
+        {
+            new_type_name += "Instance";
+        }
     }
 
     let symbol = scope.resolve_type(zserio_type);
@@ -43,6 +173,7 @@ pub fn instantiate_type(
                 pkg,
                 scope,
                 &s.as_ref().borrow(),
+                &symbol.package,
                 &zserio_type.template_arguments,
                 &zserio_type.type_arguments,
                 &new_type_name,
@@ -53,6 +184,7 @@ pub fn instantiate_type(
                 pkg,
                 scope,
                 &c.as_ref().borrow(),
+                &symbol.package,
                 &zserio_type.template_arguments,
                 &zserio_type.type_arguments,
                 &new_type_name,
@@ -63,6 +195,7 @@ pub fn instantiate_type(
                 pkg,
                 scope,
                 &u.as_ref().borrow(),
+                &symbol.package,
                 &zserio_type.template_arguments,
                 &zserio_type.type_arguments,
                 &new_type_name,
@@ -72,10 +205,22 @@ pub fn instantiate_type(
     }
 }
 
-fn generate_instantiated_name(type_reference: &TypeReference) -> String {
+fn generate_instantiated_name(type_reference: &TypeReference, scope: &ModelScope) -> String {
     let mut new_name = type_reference.name.clone();
+    if type_reference.bits > 0 {
+        new_name += &type_reference.bits.to_string();
+    }
+    // Types of other packages are only mentioned with their package, if their name alone
+    // means something else in the current package.
+    if !type_reference.package.is_empty()
+        && scope
+            .find_symbol(&type_reference.name, true)
+            .is_some_and(|symbol| symbol.package != type_reference.package)
+    {
+        new_name = type_reference.package.replace('.', "_") + "_" + &new_name;
+    }
     for template_arg in &type_reference.template_arguments {
-        new_name += template_arg.name.as_str();
+        new_name += &generate_instantiated_name(template_arg, scope);
     }
     new_name
 }
@@ -84,6 +229,7 @@ fn instantiate_struct(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     z_struct: &ZStruct,
+    template_package: &str,
     template_arguments: &[TypeReference],
     type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
@@ -101,7 +247,11 @@ fn instantiate_struct(
         length_expression: None,
     };
 
-    if pkg.structs.contains_key(instantiated_name) {
+    if !scope
+        .get_package_scope()
+        .instantiated_types
+        .insert(instantiated_name.clone())
+    {
         // The structure was already instantiated, there is no need to instantiate it again.
         // Return a new reference to the already existing type.
         return new_type_ref;
@@ -109,13 +259,18 @@ fn instantiate_struct(
 
     // The instantiated struct doesn't exist yet. Start by instantiating the
     // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
+    let mut context = TemplateContext::new(
+        template_package,
+        &z_struct.fields,
+        &z_struct.type_parameters,
+        &z_struct.functions,
+    );
     for (index, template_arg) in template_arguments.iter().enumerate() {
         // In case the type instantiation is a template itself, it must be instantiated
         // before mapping it. In case the template argument itself is not a template,
         // instantiate_type() will just pass the type through.
         let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
+        context.instantiated_types.insert(
             z_struct.template_parameters[index].clone(),
             instantiated_type,
         );
@@ -138,47 +293,34 @@ fn instantiate_struct(
                 pkg,
                 scope,
                 &field.borrow(),
-                &instantiated_types,
+                &context,
             ))));
     }
     // Instantiate the parameters
     for rc_param in &z_struct.type_parameters {
+        let mut param = rc_param.as_ref().borrow().clone();
         // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+        *param.zserio_type = instantiate_bound_type(pkg, scope, &param.zserio_type, &context);
+        instantiated_struct
+            .type_parameters
+            .push(Rc::new(RefCell::new(param)));
     }
 
     for rc_function in &z_struct.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+        let result = context.bind_expressions(scope, std::slice::from_ref(&function.result));
+        instantiated_struct
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: result[0].clone(),
+                return_type: Box::new(instantiate_bound_type(
+                    pkg,
+                    scope,
+                    &function.return_type,
+                    &context,
+                )),
+            })));
     }
 
     // Add the newly added structure to the package.
@@ -196,6 +338,7 @@ fn instantiate_choice(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     z_choice: &ZChoice,
+    template_package: &str,
     template_arguments: &[TypeReference],
     type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
@@ -213,7 +356,11 @@ fn instantiate_choice(
         length_expression: None,
     };
 
-    if pkg.zchoices.contains_key(instantiated_name) {
+    if !scope
+        .get_package_scope()
+        .instantiated_types
+        .insert(instantiated_name.clone())
+    {
         // The structure was already instantiated, there is no need to instantiate it again.
         // Return a new reference to the already existing type.
         return new_type_ref;
@@ -221,13 +368,20 @@ fn instantiate_choice(
 
     // The instantiated struct doesn't exist yet. Start by instantiating the
     // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
+    let cases = z_choice.cases.iter().chain(&z_choice.default_case);
+    let fields: Vec<_> = cases.filter_map(|case| case.field.clone()).collect();
+    let mut context = TemplateContext::new(
+        template_package,
+        &fields,
+        &z_choice.type_parameters,
+        &z_choice.functions,
+    );
     for (index, template_arg) in template_arguments.iter().enumerate() {
         // In case the type instantiation is a template itself, it must be instantiated
         // before mapping it. In case the template argument itself is not a template,
         // instantiate_type() will just pass the type through.
         let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
+        context.instantiated_types.insert(
             z_choice.template_parameters[index].clone(),
             instantiated_type,
         );
@@ -237,7 +391,9 @@ fn instantiate_choice(
         name: instantiated_name.clone(),
         template_parameters: vec![],
         type_parameters: vec![],
-        selector_expression: z_choice.selector_expression.clone(),
+        selector_expression: context
+            .bind_expressions(scope, std::slice::from_ref(&z_choice.selector_expression))[0]
+            .clone(),
         cases: vec![],
         default_case: None,
         functions: vec![],
@@ -246,14 +402,14 @@ fn instantiate_choice(
     // Instantiate the choice fields
     for case in &z_choice.cases {
         instantiated_choice.cases.push(ZChoiceCase {
-            conditions: case.conditions.clone(),
+            conditions: context.bind_expressions(scope, &case.conditions),
             field: {
                 if let Some(field) = &case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
                         pkg,
                         scope,
                         &field.borrow(),
-                        &instantiated_types,
+                        &context,
                     ))))
                 } else {
                     None
@@ -264,14 +420,14 @@ fn instantiate_choice(
     // Instantiate the default field, if present
     if let Some(default_case) = &z_choice.default_case {
         instantiated_choice.default_case = Option::from(ZChoiceCase {
-            conditions: default_case.conditions.clone(),
+            conditions: context.bind_expressions(scope, &default_case.conditions),
             field: {
                 if let Some(field) = &default_case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
                         pkg,
                         scope,
                         &field.borrow(),
-                        &instantiated_types,
+                        &context,
                     ))))
                 } else {
                     None
@@ -282,43 +438,31 @@ fn instantiate_choice(
 
     // Instantiate the parameters
     for rc_param in &z_choice.type_parameters {
+        let mut param = rc_param.as_ref().borrow().clone();
         // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+        *param.zserio_type = instantiate_bound_type(pkg, scope, &param.zserio_type, &context);
+        instantiated_choice
+            .type_parameters
+            .push(Rc::new(RefCell::new(param)));
     }
 
     for rc_function in &z_choice.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+        let result = context.bind_expressions(scope, std::slice::from_ref(&function.result));
+        instantiated_choice
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: result[0].clone(),
+                return_type: Box::new(instantiate_bound_type(
+                    pkg,
+                    scope,
+                    &function.return_type,
+                    &context,
+                )),
+            })));
     }
+
     // Add the newly added choice to the package.
     pkg.zchoices.insert(
         instantiated_name.clone(),
@@ -334,6 +478,7 @@ fn instantiate_union(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     z_union: &ZUnion,
+    template_package: &str,
     template_arguments: &[TypeReference],
     type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
@@ -351,7 +496,11 @@ fn instantiate_union(
         length_expression: None,
     };
 
-    if pkg.zunions.contains_key(instantiated_name) {
+    if !scope
+        .get_package_scope()
+        .instantiated_types
+        .insert(instantiated_name.clone())
+    {
         // The union was already instantiated, there is no need to instantiate it again.
         // Return a new reference to the already existing type.
         return new_type_ref;
@@ -359,13 +508,18 @@ fn instantiate_union(
 
     // The instantiated struct doesn't exist yet. Start by instantiating the
     // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
+    let mut context = TemplateContext::new(
+        template_package,
+        &z_union.fields,
+        &z_union.type_parameters,
+        &z_union.functions,
+    );
     for (index, template_arg) in template_arguments.iter().enumerate() {
         // In case the type instantiation is a template itself, it must be instantiated
         // before mapping it. In case the template argument itself is not a template,
         // instantiate_type() will just pass the type through.
         let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
+        context.instantiated_types.insert(
             z_union.template_parameters[index].clone(),
             instantiated_type,
         );
@@ -388,47 +542,34 @@ fn instantiate_union(
                 pkg,
                 scope,
                 &field.borrow(),
-                &instantiated_types,
+                &context,
             ))));
     }
     // Instantiate the parameters
     for rc_param in &z_union.type_parameters {
+        let mut param = rc_param.as_ref().borrow().clone();
         // Check if the parameter is a templated type
-        let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
-        }
+        *param.zserio_type = instantiate_bound_type(pkg, scope, &param.zserio_type, &context);
+        instantiated_union
+            .type_parameters
+            .push(Rc::new(RefCell::new(param)));
     }
 
     for rc_function in &z_union.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: function.result.clone(),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(function.clone())));
-        }
+        let result = context.bind_expressions(scope, std::slice::from_ref(&function.result));
+        instantiated_union
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: result[0].clone(),
+                return_type: Box::new(instantiate_bound_type(
+                    pkg,
+                    scope,
+                    &function.return_type,
+                    &context,
+                )),
+            })));
     }
 
     // Update the scope to contain the newly added union.
@@ -440,46 +581,60 @@ fn instantiate_union(
     new_type_ref
 }
 
+/// Instantiates a type which is used inside of a template. The type may be a template parameter,
+/// or by itself be a template, which is using the template type in its template parameters.
+/// For example:
+/// SomeOtherTemplate<TEMPLATE_TYPE> field;
+fn instantiate_bound_type(
+    pkg: &mut ZPackage,
+    scope: &mut ModelScope,
+    zserio_type: &TypeReference,
+    context: &TemplateContext,
+) -> TypeReference {
+    let bound_type = context.bind_type(scope, zserio_type);
+    instantiate_type(pkg, scope, &bound_type, "")
+}
+
 pub fn instantiate_field(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
     field: &Field,
-    instantiated_types: &HashMap<String, TypeReference>,
+    context: &TemplateContext,
 ) -> Field {
     let mut new_field = field.clone();
-    if !new_field.field_type.template_arguments.is_empty() {
-        // The field type is not a template type itself, but by itself is a template,
-        // which is using the template type in its template parameters.
-        // For example:
-        // SomeOtherTemplate<TEMPLATE_TYPE> field;
-
-        // Iterate over the template parameters and instantiate them.
-        let mut new_template_arguments = vec![];
-
-        for template_parameter in new_field.field_type.template_arguments.iter() {
-            if instantiated_types.contains_key(&template_parameter.name) {
-                new_template_arguments.push(instantiated_types[&template_parameter.name].clone());
-            } else {
-                new_template_arguments.push(template_parameter.clone());
-            }
-        }
-        new_field.field_type.template_arguments = new_template_arguments;
-
-        new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_field.field_type, ""));
-        return new_field;
+    new_field.field_type = Box::from(instantiate_bound_type(
+        pkg,
+        scope,
+        &field.field_type,
+        context,
+    ));
+    // Each instantiation evaluates its own expressions.
+    new_field.initializer = context.bind_expression(scope, &field.initializer);
+    new_field.offset = context.bind_expression(scope, &field.offset);
+    new_field.constraint = context.bind_expression(scope, &field.constraint);
+    new_field.optional_clause = context.bind_expression(scope, &field.optional_clause);
+    if let Some(array) = &mut new_field.array {
+        array.array_length_expression =
+            context.bind_expression(scope, &array.array_length_expression);
     }
+    new_field
+}
 
-    // Check if the field type is directly a templated type. For example:
-    // TEMPLATE_TYPE field;
-    if instantiated_types.contains_key(&field.field_type.name) {
-        new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
-        // copy the parameters, if set
-        new_field
-            .field_type
-            .type_arguments
-            .clone_from(&field.field_type.type_arguments);
+/// Instantiates the types of parameters and functions.
+fn instantiate_parameters_and_functions(
+    pkg: &mut ZPackage,
+    scope: &mut ModelScope,
+    type_parameters: &[Rc<RefCell<Parameter>>],
+    functions: &[Rc<RefCell<ZFunction>>],
+) {
+    for param in type_parameters {
+        let new_type = instantiate_type(pkg, scope, &param.borrow().zserio_type, "");
+        *param.borrow_mut().zserio_type = new_type;
+    }
+    for function in functions {
+        let new_type = instantiate_type(pkg, scope, &function.borrow().return_type, "");
+        *function.borrow_mut().return_type = new_type;
     }
-    new_field
 }
 
 /// Instantiates a struct that is not templated by itself, but has
@@ -490,16 +645,13 @@ pub fn instantiate_field(
 ///     TemplateType<int32> field;
 /// };
 /// ```
-pub fn instantiate_struct_fields(
-    pkg: &mut ZPackage,
-    scope: &mut ModelScope,
-    zstruct: &mut ZStruct,
-) {
+pub fn instantiate_struct_fields(pkg: &mut ZPackage, scope: &mut ModelScope, zstruct: &ZStruct) {
     // template structs are not instantiated; their instantiation happens when
     // the template structs are actually used (by template instantiation).
     if !zstruct.template_parameters.is_empty() {
         return;
     }
+    instantiate_parameters_and_functions(pkg, scope, &zstruct.type_parameters, &zstruct.functions);
     // Instantiate field inside structs.
     for field in &zstruct.fields {
         let new_type = Box::new(instantiate_type(pkg, scope, &field.borrow().field_type, ""));
@@ -516,16 +668,13 @@ pub fn instantiate_struct_fields(
 ///     TemplateType<int32> field;
 /// };
 /// ```
-pub fn instantiate_choice_fields(
-    pkg: &mut ZPackage,
-    scope: &mut ModelScope,
-    zchoice: &mut ZChoice,
-) {
+pub fn instantiate_choice_fields(pkg: &mut ZPackage, scope: &mut ModelScope, zchoice: &ZChoice) {
     // template choice are not instantiated; their instantiation happens when
     // the template choices are actually used (by template instantiation).
     if !zchoice.template_parameters.is_empty() {
         return;
     }
+    instantiate_parameters_and_functions(pkg, scope, &zchoice.type_parameters, &zchoice.functions);
     // Instantiate field inside choices.
     for case in &zchoice.cases {
         if let Some(field) = &case.field {
@@ -550,12 +699,13 @@ pub fn instantiate_choice_fields(
 ///     TemplateType<int32> field;
 /// };
 /// ```
-pub fn instantiate_union_fields(pkg: &mut ZPackage, scope: &mut ModelScope, zunion: &mut ZUnion) {
+pub fn instantiate_union_fields(pkg: &mut ZPackage, scope: &mut ModelScope, zunion: &ZUnion) {
     // template unions are not instantiated; their instantiation happens when
     // the templated union are actually used (by template instantiation).
     if !zunion.template_parameters.is_empty() {
         return;
     }
+    instantiate_parameters_and_functions(pkg, scope, &zunion.type_parameters, &zunion.functions);
     // Instantiate field inside the union.
     for field in &zunion.fields {
         let new_type = Box::new(instantiate_type(pkg, scope, &field.borrow().field_type, ""));
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 2b11546..e988e66 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -200,7 +200,7 @@ impl Model {
                     import_symbol: None,
                     symbol_name: Option::from(z_struct.borrow().name.clone()),
                 });
-                instantiate_struct_fields(pkg, scope, &mut z_struct.borrow_mut());
+                instantiate_struct_fields(pkg, scope, &z_struct.borrow());
                 scope.scope_stack.pop();
             }
 
@@ -211,7 +211,7 @@ impl Model {
                     import_symbol: None,
                     symbol_name: Option::from(z_choice.borrow().name.clone()),
                 });
-                instantiate_choice_fields(pkg, scope, &mut z_choice.borrow_mut());
+                instantiate_choice_fields(pkg, scope, &z_choice.borrow());
                 scope.scope_stack.pop();
             }
 
@@ -222,7 +222,7 @@ impl Model {
                     import_symbol: None,
                     symbol_name: Option::from(z_union.borrow().name.clone()),
                 });
-                instantiate_union_fields(pkg, scope, &mut z_union.borrow_mut());
+                instantiate_union_fields(pkg, scope, &z_union.borrow());
                 scope.scope_stack.pop();
             }
             scope.scope_stack.pop();
-- 
2.43.0


From 32d0b09191e5d3bd41f723ae8c5083bb870b1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 29/42] fix: report declarations that get the same rust module
 name

---
 crates/zserio-rs-build/src/internal/generator/package.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/package.rs b/crates/zserio-rs-build/src/internal/generator/package.rs
index c18d86b..ea39379 100644
--- a/crates/zserio-rs-build/src/internal/generator/package.rs
+++ b/crates/zserio-rs-build/src/internal/generator/package.rs
@@ -163,6 +163,12 @@ pub fn generate_package(
 
     // Sort module names so our output is in a predictable order.
     module_names.sort_unstable();
+    if let Some(names) = module_names.windows(2).find(|names| names[0] == names[1]) {
+        panic!(
+            "package {0}: several declarations get the rust module name {1}",
+            package_name, names[0]
+        );
+    }
     for module_name in &module_names {
         mod_file_content += format!("pub mod {module_name};\n").as_str();
     }
-- 
2.43.0


From 834727e51fc36fba0b433d0690b5abf11d7d625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 30/42] fix: report packages that are declared by more than one
 file

---
 crates/zserio-rs-build/src/internal/model.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index e988e66..3ea37b5 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -42,7 +42,10 @@ impl Model {
             file_name = file_name.to_ascii_lowercase();
             if file_name.ends_with(".zs") || file_name.ends_with(".zserio") {
                 let package = package_from_file(&path);
-                packages.insert(package.name.clone(), package);
+                let name = package.name.clone();
+                if packages.insert(name.clone(), package).is_some() {
+                    panic!("package {0} is declared by more than one file", name);
+                }
             }
         }
         Model {
-- 
2.43.0


From 89be29dc446b7b8dae7bfbb9b9d0f94c1b281c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 31/42] fix: lengths of arrays and strings from 2^32 on were
 stored modulo 2^32

---
 crates/zserio/src/ztype/array.rs          | 8 ++++----
 crates/zserio/src/ztype/string_encode.rs  | 4 ++--
 crates/zserio/src/ztype/varuint_encode.rs | 5 +++++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/array.rs b/crates/zserio/src/ztype/array.rs
index f9de41c..673270d 100644
--- a/crates/zserio/src/ztype/array.rs
+++ b/crates/zserio/src/ztype/array.rs
@@ -2,7 +2,7 @@ use crate::error::Result;
 use crate::ztype::array_traits::array_trait::ArrayTrait;
 use crate::ztype::read_varsize;
 use crate::ztype::varsize_bitsize;
-use crate::ztype::varuint_encode::write_varsize;
+use crate::ztype::varuint_encode::{length_as_varsize, write_varsize};
 use bitreader::BitReader;
 use num::traits::Unsigned;
 use rust_bitwriter::BitWriter;
@@ -60,7 +60,7 @@ impl<T> Array<T> {
             assert_eq!(expected_array_len, data.len());
         } else {
             // for auto arrays, write the length of the array
-            write_varsize(writer, data.len() as u32)?;
+            write_varsize(writer, length_as_varsize(data.len())?)?;
         }
 
         if data.is_empty() {
@@ -171,7 +171,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(length_as_varsize(data.len())?)? as u64;
         }
         if !data.is_empty() {
             if self.is_packed {
@@ -222,7 +222,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(length_as_varsize(data.len())?)? as u64;
         }
         if !data.is_empty() {
             let mut packing_context_node = self.array_trait.create_context();
diff --git a/crates/zserio/src/ztype/string_encode.rs b/crates/zserio/src/ztype/string_encode.rs
index 65b3346..66ea9ec 100644
--- a/crates/zserio/src/ztype/string_encode.rs
+++ b/crates/zserio/src/ztype/string_encode.rs
@@ -3,12 +3,12 @@ use rust_bitwriter::BitWriter;
 use crate::error::Result;
 use crate::ztype::unsigned_bitsize;
 
-use super::varuint_encode::write_varsize;
+use super::varuint_encode::{length_as_varsize, write_varsize};
 
 pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
     let string_bytes = s.as_bytes();
 
-    write_varsize(writer, string_bytes.len() as u32)?;
+    write_varsize(writer, length_as_varsize(string_bytes.len())?)?;
 
     for string_byte in string_bytes {
         writer.write_u8(*string_byte, 8)?;
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index fedef02..f02a4af 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -28,6 +28,11 @@ pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
     write_varuint_type(writer, v as u64, 5)
 }
 
+/// Returns the length of an array or a string as the type it is stored with.
+pub(crate) fn length_as_varsize(length: usize) -> Result<u32> {
+    u32::try_from(length).map_err(|_| ZserioError::DataDoesNotFit)
+}
+
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
     let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
-- 
2.43.0


From 51c7f043fbf2dc50e9e0b98d4762adfdaba9ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 32/42] fix: constants of type bool were emitted as expressions
 rustc cannot evaluate (string comparisons)

---
 crates/zserio-rs-build/src/internal/generator/zconst.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index 735b8fb..e35b957 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -47,6 +47,7 @@ pub fn generate_constant(
     let value = match value_expression.result_type {
         // Not all functions used by expressions can be called in constants.
         ExpressionType::Integer(v) if value_expression.fully_resolved => v.to_string(),
+        ExpressionType::Bool(v) if value_expression.fully_resolved => v.to_string(),
         _ => generate_expression(&value_expression, type_generator, symbol_scope),
     };
     file_content += format!(
-- 
2.43.0


From 44d7eac29e191dc30fe22f9eaff76860a91e9e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 33/42] fix: dot expressions could not look into unions

---
 crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 2c461e4..3313d58 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -292,6 +292,7 @@ fn get_symbol_name(symbol: &Symbol) -> String {
     match symbol {
         Symbol::Struct(s) => s.as_ref().borrow().name.clone(),
         Symbol::Choice(c) => c.as_ref().borrow().name.clone(),
+        Symbol::Union(u) => u.as_ref().borrow().name.clone(),
         Symbol::Subtype(s) => s.as_ref().borrow().name.clone(),
         Symbol::Enum(e) => e.as_ref().borrow().name.clone(),
         Symbol::Bitmask(bitmask) => bitmask.as_ref().borrow().name.clone(),
-- 
2.43.0


From 2028eb5ba0124d0bb028faf261dbed04bca3f189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 34/42] fix: functions that return compound types, bytes,
 extern or subtypes of string did not compile

---
 .../src/internal/ast/expression.rs            |  5 ++
 .../src/internal/generator/expression.rs      |  1 +
 .../src/internal/generator/function.rs        | 49 ++++++++++---------
 3 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index e440576..3bc3bea 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -801,6 +801,11 @@ fn type_reference_to_expression_type(
                 ExpressionType::Integer(0),
                 Some(TypeReference::new_native_type(type_ref.name.as_str())),
             )
+        } else if type_ref.name == "bytes" || type_ref.name == "extern" {
+            (
+                ExpressionType::Other,
+                Some(TypeReference::new_native_type(type_ref.name.as_str())),
+            )
         } else {
             panic!("failed to determine builtin type reference type");
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index c44fcd0..99099ce 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -337,6 +337,7 @@ fn generate_ternary_expression(
         let code = generate_operand(operand, is_float, type_generator, scope);
         match expression.result_type {
             ExpressionType::String(_) => format!("({code}).to_string()"),
+            ExpressionType::Compound | ExpressionType::Other => format!("({code}).clone()"),
             _ => code,
         }
     };
diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index bf5d84e..30c96e3 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -1,5 +1,6 @@
 use crate::internal::ast::zfunction::ZFunction;
-use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
+use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::types::{convert_to_function_name, TypeGenerator};
 use codegen::Impl;
@@ -23,25 +24,29 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin && zserio_function.return_type.name == "string" {
-        fn_gen_scope.line(format!(
-            "({}).to_string()",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
-        ));
-    } else {
-        // Generate the function content.
-        fn_gen_scope.line(format!(
-            "({}) as {}",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
-            type_generator.ztype_to_rust_type(&zserio_function.return_type),
-        ));
-    }
+    let rust_type = type_generator.ztype_to_rust_type(&zserio_function.return_type);
+    let result = generate_expression(
+        &zserio_function.result.as_ref().borrow(),
+        type_generator,
+        scope,
+    );
+    let fundamental_type = get_fundamental_type(&zserio_function.return_type, scope);
+    let is_enum_or_bitmask = fundamental_type.is_marshaler
+        && matches!(
+            scope.get_symbol(&fundamental_type.fundamental_type).symbol,
+            Symbol::Enum(_) | Symbol::Bitmask(_)
+        );
+
+    // Generate the function content.
+    fn_gen_scope.line(
+        match (
+            fundamental_type.is_marshaler,
+            fundamental_type.fundamental_type.name.as_str(),
+        ) {
+            (false, "string") => format!("({result}).to_string()"),
+            (false, "bytes" | "extern") => format!("({result}).clone()"),
+            (true, _) if !is_enum_or_bitmask => format!("({result}).clone()"),
+            _ => format!("({result}) as {rust_type}"),
+        },
+    );
 }
-- 
2.43.0


From 01657cfb202ee875b302af91734f3da6e106f641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:41 +0000
Subject: [PATCH 35/42] fix: names that are Rust keywords or that the generated
 code uses did not compile

---
 .../src/internal/generator/types.rs           | 47 +++++++++++++++++--
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index a1fca93..b1e2657 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -24,7 +24,7 @@ impl TypeGenerator {
     }
 
     pub fn convert_field_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_snake_case_identifier(name)
     }
 
     pub fn ztype_to_rust_type(&mut self, ztype: &TypeReference) -> String {
@@ -51,11 +51,15 @@ impl TypeGenerator {
     }
 
     pub fn to_rust_module_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_snake_case_identifier(name)
     }
 
     pub fn to_rust_type_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_pascal_case()
+        let identifier = remove_reserved_identifier(name).to_pascal_case();
+        match USED_NAMES.contains(&identifier.as_str()) {
+            true => format!("Z{identifier}"),
+            false => identifier,
+        }
     }
 
     pub fn custom_type_to_rust_type(name: &str) -> String {
@@ -85,6 +89,41 @@ fn remove_reserved_identifier(name: &str) -> &str {
     }
 }
 
+/// The names that every generated file imports or uses.
+const USED_NAMES: &[&str] = &[
+    "BitReader",
+    "BitWriter",
+    "Box",
+    "Default",
+    "DeltaContext",
+    "From",
+    "Option",
+    "PackingContextNode",
+    "Result",
+    "String",
+    "TryFrom",
+    "Vec",
+    "ZserioPackableObject",
+];
+
+/// The keywords of Rust, which are ordinary names in zserio.
+const RUST_KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "if", "impl", "in",
+    "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "static", "super", "trait", "true", "try", "typeof", "unsafe", "unsized", "use",
+    "virtual", "where", "while", "yield",
+];
+
+/// Translates a zserio name to a snake case rust identifier.
+fn to_snake_case_identifier(name: &str) -> String {
+    let identifier = remove_reserved_identifier(name).to_snake_case_with_nums_as_word();
+    match RUST_KEYWORDS.contains(&identifier.as_str()) {
+        true => format!("z_{identifier}"),
+        false => identifier,
+    }
+}
+
 /// Translates a zserio name to a rust constant name.
 pub fn to_rust_constant_name(name: &str) -> String {
     remove_reserved_identifier(name).to_ascii_uppercase()
@@ -100,7 +139,7 @@ pub fn convert_to_union_selector_name(field_name: &str) -> String {
 
 pub fn convert_to_function_name(name: &str) -> String {
     // Converts a function name from zserio style to rust style (snake case).
-    remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+    to_snake_case_identifier(name)
 }
 
 pub fn zserio_to_rust_type(name: &str) -> Result<String, &'static str> {
-- 
2.43.0


From 3de74cb242342f0c4391de3c11d7025a8ff75f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:35 +0000
Subject: [PATCH 36/42] fix: template instantiations whose generated names
 coincide shared one type

---
 .../src/internal/compiler/symbol_scope.rs     | 12 +++++--
 .../compiler/template_instantiation.rs        | 32 ++++++++++++++++---
 crates/zserio-rs-build/src/internal/model.rs  | 11 ++++---
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 3313d58..0a3a1bc 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -57,6 +57,8 @@ pub struct PackageScope {
 
     // The names of the types that are instantiations of templates.
     pub instantiated_types: HashSet<String>,
+    /// The names of the instantiated templates, and what they stand for.
+    pub instantiations: HashMap<String, String>,
 }
 
 pub struct ScopeLocation {
@@ -208,6 +210,7 @@ impl PackageScope {
             file_symbols: HashMap::new(),
             imports: package.imports.to_vec(),
             instantiated_types: HashSet::new(),
+            instantiations: HashMap::new(),
         };
 
         for zconst in &package.consts {
@@ -273,9 +276,12 @@ impl PackageScope {
         self.find_file_symbol(name)
     }
 
-    /// Returns if a name is used by a type which is no instantiation of a template.
-    pub fn is_declared_and_not_instantiated(&self, name: &String) -> bool {
-        self.file_symbols.contains_key(name) && !self.instantiated_types.contains(name)
+    /// Returns if a name is used by another type than the given instantiation of a template.
+    pub fn is_used_by_another_type(&self, name: &String, instantiation: &String) -> bool {
+        match self.instantiations.get(name) {
+            Some(known_instantiation) => known_instantiation != instantiation,
+            None => self.file_symbols.contains_key(name),
+        }
     }
 
     /// Searches for a symbol that is declared by the package.
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 53a1f8d..089f074 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -151,22 +151,34 @@ pub fn instantiate_type(
     }
 
     // The template arguments are names of the package that is using the template.
-    let zserio_type =
-        &TemplateContext::new(&pkg.name, &[], &[], &[]).bind_template_arguments(scope, zserio_type);
+    let mut zserio_type =
+        TemplateContext::new(&pkg.name, &[], &[], &[]).bind_template_arguments(scope, zserio_type);
+    let symbol = scope.resolve_type(&zserio_type);
+    let generated_name = generate_instantiated_name(&zserio_type, scope);
+
+    // Arguments which are templates by themselves are instantiated first, so that equal
+    // arguments are recognised.
+    for template_argument in &mut zserio_type.template_arguments {
+        *template_argument = instantiate_type(pkg, scope, template_argument, "");
+    }
+    let instantiation = describe_instantiation(&symbol.package, &zserio_type);
 
     let mut new_type_name = String::from(name);
     if new_type_name.is_empty() {
         // in case no name is provided, a new name needs to be generated.
-        new_type_name = generate_instantiated_name(zserio_type, scope);
+        new_type_name = generated_name;
         while scope
             .get_package_scope()
-            .is_declared_and_not_instantiated(&new_type_name)
+            .is_used_by_another_type(&new_type_name, &instantiation)
         {
             new_type_name += "Instance";
         }
     }
+    scope
+        .get_package_scope()
+        .instantiations
+        .insert(new_type_name.clone(), instantiation);
 
-    let symbol = scope.resolve_type(zserio_type);
     match symbol.symbol {
         Symbol::Struct(s) => {
             return instantiate_struct(
@@ -205,6 +217,16 @@ pub fn instantiate_type(
     }
 }
 
+/// Identifies an instantiation of a template. Instantiations with different arguments may get
+/// the same generated name.
+fn describe_instantiation(package: &str, type_reference: &TypeReference) -> String {
+    let mut description = format!("{}.{}", package, type_reference.name);
+    for argument in &type_reference.template_arguments {
+        description += &format!(",{}.{}:{}", argument.package, argument.name, argument.bits);
+    }
+    description
+}
+
 fn generate_instantiated_name(type_reference: &TypeReference, scope: &ModelScope) -> String {
     let mut new_name = type_reference.name.clone();
     if type_reference.bits > 0 {
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 3ea37b5..0968ee0 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -5,7 +5,7 @@ use crate::internal::compiler::resolve_types::{
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::path::Path;
 use walkdir::WalkDir;
 
@@ -195,8 +195,9 @@ impl Model {
 
             // The template instantiation will generate new structs, unions, choices -
             // to not work on a list that is modified on the fly, we take a clone of
-            // the current structs/choices/unions.
-            let zstructs = pkg.structs.clone();
+            // the current structs/choices/unions. The names of the instantiations depend on
+            // the order in which they are generated, so it needs to be a fixed one.
+            let zstructs = BTreeMap::from_iter(pkg.structs.clone());
             for z_struct in zstructs.values() {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
@@ -207,7 +208,7 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
-            let zchoices = pkg.zchoices.clone();
+            let zchoices = BTreeMap::from_iter(pkg.zchoices.clone());
             for z_choice in zchoices.values() {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
@@ -218,7 +219,7 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
-            let zunions = pkg.zunions.clone();
+            let zunions = BTreeMap::from_iter(pkg.zunions.clone());
             for z_union in zunions.values() {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
-- 
2.43.0


From 6bc8089db25d446419f79205c65288cd4c90781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:49 +0000
Subject: [PATCH 37/42] fix: files with syntax errors were compiled in part

---
 .../src/internal/model/package.rs             | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/model/package.rs b/crates/zserio-rs-build/src/internal/model/package.rs
index c0eecb3..e67f31d 100644
--- a/crates/zserio-rs-build/src/internal/model/package.rs
+++ b/crates/zserio-rs-build/src/internal/model/package.rs
@@ -4,17 +4,43 @@ use crate::internal::parser::gen::zserioparser::ZserioParser;
 use crate::internal::visitor::Visitor;
 use crate::internal::visitor::ZserioTreeReturnType;
 use antlr_rust::common_token_stream::CommonTokenStream;
+use antlr_rust::error_listener::ErrorListener;
+use antlr_rust::errors::ANTLRError;
+use antlr_rust::recognizer::Recognizer;
+use antlr_rust::token_factory::TokenFactory;
 use antlr_rust::tree::ParseTreeVisitorCompat;
 use antlr_rust::InputStream;
-use std::path::Path;
+use antlr_rust::Parser;
+use std::path::{Path, PathBuf};
 
 use std::fs;
 
+/// Refuses files which are not valid zserio. Without it, ANTLR would skip whatever it can not parse.
+struct SyntaxErrorListener {
+    path: PathBuf,
+}
+
+impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for SyntaxErrorListener {
+    fn syntax_error(
+        &self,
+        _recognizer: &T,
+        _offending_symbol: Option<&<T::TF as TokenFactory<'a>>::Inner>,
+        line: isize,
+        column: isize,
+        msg: &str,
+        _e: Option<&ANTLRError>,
+    ) {
+        panic!("{}:{}:{}: {}", self.path.display(), line, column, msg);
+    }
+}
+
 /// Loads a zserio package from a file.
 pub fn package_from_file(path: &Path) -> ZPackage {
     let contents = fs::read_to_string(path).expect("failed to read file");
-    let lexer = ZserioLexer::new(InputStream::new(&*contents));
+    let mut lexer = ZserioLexer::new(InputStream::new(&*contents));
+    lexer.add_error_listener(Box::new(SyntaxErrorListener { path: path.into() }));
     let mut parser = ZserioParser::new(CommonTokenStream::new(lexer));
+    parser.add_error_listener(Box::new(SyntaxErrorListener { path: path.into() }));
 
     let root = parser.packageDeclaration().unwrap(); //.expect("package declaration failed");
     let x = ZserioTreeReturnType::Str("".into());
-- 
2.43.0


From 7fb4588ce6913114f1310fd99bd478ed10a49cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:03 +0000
Subject: [PATCH 38/42] fix: of two declarations of one name in a package, one
 was lost

---
 .../zserio-rs-build/src/internal/visitor.rs   | 34 ++++++++++++++-----
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 57a515f..12a44ae 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -8,7 +8,7 @@ use crate::internal::ast::{
     zsubtype::Subtype, zunion::ZUnion,
 };
 use crate::internal::parser::gen::zserioparservisitor::ZserioParserVisitorCompat;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 
 use crate::internal::ast::{
     expression::{EvaluationState, Expression, ExpressionFlag, ExpressionType},
@@ -162,7 +162,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         }
 
         let mut package = Box::new(ZPackage {
-            name: package_name,
+            name: package_name.clone(),
             comment: "".into(),
             imports,
             structs: HashMap::new(),
@@ -175,6 +175,12 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             bitmask_types: vec![],
         });
 
+        let mut declared_names = HashSet::new();
+        let mut declare = |name: &str| {
+            if !declared_names.insert(name.to_owned()) {
+                panic!("package {package_name}: {name} is declared more than once");
+            }
+        };
         for directive in ctx.languageDirective_all() {
             match self.visit(&*directive) {
                 ZserioTreeReturnType::Str(s) => warn!("unknown package directive: {0}", s),
@@ -182,29 +188,38 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                     for ve in v {
                         match ve {
                             ZserioTreeReturnType::Structure(s) => {
+                                declare(&s.name);
                                 let name = s.name.clone();
                                 package.structs.insert(name, Rc::new(RefCell::new(*s)));
                             }
                             ZserioTreeReturnType::Choice(c) => {
+                                declare(&c.name);
                                 let name = c.name.clone();
                                 package.zchoices.insert(name, Rc::new(RefCell::new(*c)));
                             }
                             ZserioTreeReturnType::Enumeration(e) => {
-                                package.enums.push(Rc::new(RefCell::new(*e)))
+                                declare(&e.name);
+                                package.enums.push(Rc::new(RefCell::new(*e)));
                             }
                             ZserioTreeReturnType::Const(c) => {
-                                package.consts.push(Rc::new(RefCell::new(*c)))
+                                declare(&c.name);
+                                package.consts.push(Rc::new(RefCell::new(*c)));
                             }
                             ZserioTreeReturnType::Union(u) => {
+                                declare(&u.name);
                                 let name = u.name.clone();
                                 package.zunions.insert(name, Rc::new(RefCell::new(*u)));
                             }
                             ZserioTreeReturnType::Subtype(s) => {
-                                package.subtypes.push(Rc::new(RefCell::new(*s)))
+                                declare(&s.name);
+                                package.subtypes.push(Rc::new(RefCell::new(*s)));
+                            }
+                            ZserioTreeReturnType::BitmaskType(bitmask_type) => {
+                                declare(&bitmask_type.name);
+                                package
+                                    .bitmask_types
+                                    .push(Rc::new(RefCell::new(*bitmask_type)));
                             }
-                            ZserioTreeReturnType::BitmaskType(bitmask_type) => package
-                                .bitmask_types
-                                .push(Rc::new(RefCell::new(*bitmask_type))),
                             ZserioTreeReturnType::Str(_) => {}
                             ZserioTreeReturnType::StrVec(s) => {
                                 warn!("unknown str vec: {0}", s[0])
@@ -215,7 +230,8 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                             ZserioTreeReturnType::Field(_z) => trace!("field found"),
                             ZserioTreeReturnType::Expression(_e) => trace!("expression found"),
                             ZserioTreeReturnType::InstantiateType(t) => {
-                                package.instantiated_types.push(Rc::new(RefCell::new(*t)))
+                                declare(&t.name);
+                                package.instantiated_types.push(Rc::new(RefCell::new(*t)));
                             }
                             _ => panic!("should not happen2"),
                         }
-- 
2.43.0


From 8e2b369968afb4e60027b24c63a2038326b8df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 39/42] fix: missing arguments of parameterised types were not
 noticed

---
 .../zserio-rs-build/src/internal/ast/field.rs | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/field.rs b/crates/zserio-rs-build/src/internal/ast/field.rs
index 97862a4..8782da6 100644
--- a/crates/zserio-rs-build/src/internal/ast/field.rs
+++ b/crates/zserio-rs-build/src/internal/ast/field.rs
@@ -1,4 +1,5 @@
 use crate::internal::ast::{expression::Expression, type_reference::TypeReference};
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::compiler::symbol_scope::Symbol;
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
@@ -66,6 +67,7 @@ impl Field {
     /// Evaluates all expressions within the field.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         self.field_type.evaluate(scope);
+        self.check_arguments(scope);
         if let Some(array) = &self.array {
             if let Some(array_length_expression) = &array.array_length_expression {
                 array_length_expression.borrow_mut().evaluate(scope);
@@ -91,4 +93,28 @@ impl Field {
             initializer.borrow_mut().evaluate(scope);
         }
     }
+
+    /// Ensures that exactly the arguments the type asks for are passed. The parameters
+    /// of a type that gets none would silently keep their default values.
+    fn check_arguments(&self, scope: &ModelScope) {
+        let native_type = get_fundamental_type(&self.field_type, scope).fundamental_type;
+        let parameters = match native_type.is_builtin {
+            true => 0,
+            false => match scope.get_symbol(&native_type).symbol {
+                Symbol::Choice(zchoice) => zchoice.borrow().type_parameters.len(),
+                Symbol::Struct(zstruct) => zstruct.borrow().type_parameters.len(),
+                Symbol::Union(zunion) => zunion.borrow().type_parameters.len(),
+                _ => 0,
+            },
+        };
+        if parameters != native_type.type_arguments.len() {
+            panic!(
+                "field \"{}\": type \"{}\" takes {} arguments, but {} are passed",
+                self.name,
+                native_type.name,
+                parameters,
+                native_type.type_arguments.len()
+            );
+        }
+    }
 }
-- 
2.43.0


From ad8e5529d575edf339b17a9f926ac3c0f4ecefcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 40/42] fix: a dot expression could refer to what is no member
 of the type

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 3bc3bea..169e7e1 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -306,6 +306,15 @@ impl Expression {
         // it can be <struct>.<field>, for example.
         let compound_symbol: SymbolReference =
             scope.resolve_symbol(&self.operand2.as_ref().unwrap().text, false);
+        if !matches!(
+            compound_symbol.symbol,
+            Symbol::Field(_) | Symbol::Parameter(_) | Symbol::Function(_)
+        ) {
+            panic!(
+                "{:?} is not a member of the type",
+                self.operand2.as_ref().unwrap().text
+            );
+        }
 
         (self.result_type, self.native_type) = symbol_to_expression_type(&compound_symbol, scope);
         self.symbol = Option::from(compound_symbol.clone());
-- 
2.43.0


From 7209785e4211324913b8e391b54bbbabbc435fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 41/42] fix: a comment at the start of a file was taken for a
 syntax error

---
 crates/zserio-rs-build/src/internal/model/package.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/model/package.rs b/crates/zserio-rs-build/src/internal/model/package.rs
index e67f31d..ca98764 100644
--- a/crates/zserio-rs-build/src/internal/model/package.rs
+++ b/crates/zserio-rs-build/src/internal/model/package.rs
@@ -6,8 +6,11 @@ use crate::internal::visitor::ZserioTreeReturnType;
 use antlr_rust::common_token_stream::CommonTokenStream;
 use antlr_rust::error_listener::ErrorListener;
 use antlr_rust::errors::ANTLRError;
+use antlr_rust::int_stream::IntStream;
 use antlr_rust::recognizer::Recognizer;
+use antlr_rust::token::{Token, TOKEN_DEFAULT_CHANNEL};
 use antlr_rust::token_factory::TokenFactory;
+use antlr_rust::token_stream::TokenStream;
 use antlr_rust::tree::ParseTreeVisitorCompat;
 use antlr_rust::InputStream;
 use antlr_rust::Parser;
@@ -39,7 +42,12 @@ pub fn package_from_file(path: &Path) -> ZPackage {
     let contents = fs::read_to_string(path).expect("failed to read file");
     let mut lexer = ZserioLexer::new(InputStream::new(&*contents));
     lexer.add_error_listener(Box::new(SyntaxErrorListener { path: path.into() }));
-    let mut parser = ZserioParser::new(CommonTokenStream::new(lexer));
+    let mut tokens = CommonTokenStream::new(lexer);
+    // The token stream starts with the first token of the file, even if it is a comment.
+    if tokens.get(0).get_channel() != TOKEN_DEFAULT_CHANNEL {
+        tokens.consume();
+    }
+    let mut parser = ZserioParser::new(tokens);
     parser.add_error_listener(Box::new(SyntaxErrorListener { path: path.into() }));
 
     let root = parser.packageDeclaration().unwrap(); //.expect("package declaration failed");
-- 
2.43.0


From a3fb68a8c967337964ad9c91941b1c33a163f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:39 +0000
Subject: [PATCH 42/42] fix: imports of what is not there and ambiguous names
 were accepted

---
 .../src/internal/compiler/symbol_scope.rs     | 85 +++++++++++++++----
 crates/zserio-rs-build/src/internal/model.rs  |  2 +
 2 files changed, 71 insertions(+), 16 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0a3a1bc..1e3ba57 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -121,10 +121,13 @@ impl ModelScope {
         name: &String,
         ignore_symbol_local_scopes: bool,
     ) -> SymbolReference {
-        self.find_symbol(name, ignore_symbol_local_scopes)
+        let symbol = self
+            .find_symbol(name, ignore_symbol_local_scopes)
             // If this line is reached, the symbol lookup has failed, and the symbol
             // was not found anywhere.
-            .unwrap_or_else(|| panic!("symbol not found: {:?}", name))
+            .unwrap_or_else(|| panic!("symbol not found: {:?}", name));
+        self.check_ambiguity(name, &symbol);
+        symbol
     }
 
     /// Searches a symbol based on the imports in the current package.
@@ -143,20 +146,8 @@ impl ModelScope {
             return Some(symbol);
         }
 
-        // Symbols that are imported by their name go before symbols of packages
-        // that are imported entirely.
-        for import_by_name in [true, false] {
-            for import in &package_scope.imports {
-                if match &import.symbol_name {
-                    Some(symbol_name) => import_by_name && symbol_name == name,
-                    None => !import_by_name,
-                } {
-                    let imported_package = self.get_imported_package(import);
-                    if let Some(symbol) = imported_package.find_file_symbol(name) {
-                        return Some(symbol);
-                    }
-                }
-            }
+        if let Some(symbol) = self.find_imported_symbols(name).pop() {
+            return Some(symbol);
         }
 
         // Try to find the symbol in the imported packages. If the symbol was not found
@@ -178,6 +169,48 @@ impl ModelScope {
         None
     }
 
+    /// Searches a symbol in the packages which the current package imports. There is more than
+    /// one result if the name is ambiguous.
+    fn find_imported_symbols(&self, name: &String) -> Vec<SymbolReference> {
+        let evaluation_scope = self.scope_stack.last().unwrap();
+        let package_scope = self.package_scopes.get(&evaluation_scope.package).unwrap();
+        let mut symbols: Vec<SymbolReference> = vec![];
+
+        // Symbols that are imported by their name go before symbols of packages
+        // that are imported entirely.
+        for import_by_name in [true, false] {
+            for import in &package_scope.imports {
+                if match &import.symbol_name {
+                    Some(symbol_name) => import_by_name && symbol_name == name,
+                    None => !import_by_name,
+                } {
+                    let imported_package = self.get_imported_package(import);
+                    if let Some(symbol) = imported_package.find_file_symbol(name) {
+                        // The same package may be imported more than once.
+                        if symbols.iter().all(|x| x.package != symbol.package) {
+                            symbols.push(symbol);
+                        }
+                    }
+                }
+            }
+            if !symbols.is_empty() {
+                break;
+            }
+        }
+        // The first import comes last.
+        symbols.reverse();
+        symbols
+    }
+
+    /// Refuses a name if there is more than one imported symbol it can stand for.
+    fn check_ambiguity(&self, name: &String, symbol: &SymbolReference) {
+        if symbol.package != self.scope_stack.last().unwrap().package
+            && self.find_imported_symbols(name).len() > 1
+        {
+            panic!("{:?} is imported from more than one package", name);
+        }
+    }
+
     /// Searches for a symbol that is visible in a package.
     pub fn find_symbol_in_package(
         &mut self,
@@ -190,10 +223,30 @@ impl ModelScope {
             symbol_name: None,
         });
         let symbol = self.find_symbol(name, true);
+        if let Some(symbol) = &symbol {
+            self.check_ambiguity(name, symbol);
+        }
         self.scope_stack.pop();
         symbol
     }
 
+    /// Ensures that everything that is imported is there.
+    pub fn check_imports(&self) {
+        for package_scope in self.package_scopes.values() {
+            for import in &package_scope.imports {
+                let imported_package = self.get_imported_package(import);
+                if let Some(name) = &import.symbol_name {
+                    if imported_package.find_file_symbol(name).is_none() {
+                        panic!(
+                            "{:?}, which {} imports, is not declared in {}",
+                            name, package_scope.name, imported_package.name
+                        );
+                    }
+                }
+            }
+        }
+    }
+
     fn get_imported_package(&self, import: &ZImport) -> &PackageScope {
         let package_name = import.package_dir.join(".");
         self.package_scopes
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 0968ee0..0d1e39e 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -71,6 +71,8 @@ impl Model {
         // evaluate templates
         self.instantiate_templates();
 
+        self.scope.check_imports();
+
         // resolve types
         self.resolve_types();
 
-- 
2.43.0

