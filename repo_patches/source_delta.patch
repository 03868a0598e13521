From a9e4dc0ef4aad326cc84bee19bcb24c4b902e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 01/67] fix: report out-of-range varuint and varsize values as
 errors instead of panicking

---
 crates/zserio/src/ztype/varuint_encode.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..852c3c3 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
@@ -22,12 +22,14 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From e0fd5067b27aa58721f958d49b35b99faf5f0651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 02/67] fix: apply the varsize upper bound when reading and
 sizing

---
 crates/zserio/src/ztype/varuint_bitsize.rs | 4 ++++
 crates/zserio/src/ztype/varuint_decode.rs  | 9 +++++++--
 crates/zserio/src/ztype/varuint_encode.rs  | 2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_bitsize.rs b/crates/zserio/src/ztype/varuint_bitsize.rs
index 63f7455..8cdba5a 100644
--- a/crates/zserio/src/ztype/varuint_bitsize.rs
+++ b/crates/zserio/src/ztype/varuint_bitsize.rs
@@ -1,4 +1,5 @@
 use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 
 pub fn varuint16_bitsize(v: u16) -> Result<u8> {
     unsigned_bitsize(v as u64, 2)
@@ -17,6 +18,9 @@ pub fn varuint_bitsize(v: u64) -> Result<u8> {
 }
 
 pub fn varsize_bitsize(v: u32) -> Result<u8> {
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     unsigned_bitsize(v as u64, 5)
 }
 
diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..1c06cce 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,13 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    let value = read_sized_uint(reader, 5)?;
+    if value > MAX_VARSIZE as u64 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
+    Ok(value as u32)
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index 852c3c3..fedef02 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -2,7 +2,7 @@ use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
+pub(crate) const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
 
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
-- 
2.43.0


From 056ad3f7bbefa41ad7de7d9eb46f57cd377ac1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 03/67] fix: encode, size and decode the minimum varint value
 (negative zero)

---
 crates/zserio/src/ztype/varint_bitsize.rs | 9 +++++++++
 crates/zserio/src/ztype/varint_decode.rs  | 4 ++++
 crates/zserio/src/ztype/varint_encode.rs  | 6 +++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..9135a5b 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -17,6 +17,15 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
 }
 
 pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
+    if v == i64::MIN {
+        // The minimum of varint is encoded as negative zero, no other type can hold it.
+        if max_bytes == 9 {
+            return Ok(8);
+        }
+        return Err(ZserioError::DataError(
+            "too many bytes in signed bitsize value".into(),
+        ));
+    }
     if v < 0 {
         v = -v
     }
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..a5dd5f4 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -37,6 +37,10 @@ fn read_sized_int(reader: &mut BitReader, bit_length: u8) -> Result<i64> {
         value = (value << 8) | (b as i64);
     }
     if is_negative {
+        if value == 0 && bit_length == 9 {
+            // The minimum of varint is encoded as negative zero.
+            return Ok(i64::MIN);
+        }
         value = -value;
     }
     Ok(value)
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..a47f1ad 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,7 +19,11 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
+    if v == i64::MIN && max_bytes == 9 {
+        // The minimum of varint is encoded as negative zero.
+        return Ok(writer.write_unsigned_bits(0x80_u64, 8, 8)?);
+    }
+    let abs_value = if v < 0 { v.unsigned_abs() } else { v as u64 };
 
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
 
-- 
2.43.0


From a5dc09676392acb189c784fc4021ab4810e6c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:54 +0000
Subject: [PATCH 04/67] fix: report bit widths above 64 as errors instead of
 panicking

---
 crates/zserio/src/ztype/bits_decode.rs | 6 +++---
 crates/zserio/src/ztype/bits_encode.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..1874d8c 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,16 +1,16 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(reader.read_u64(bits)?)
 }
 
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(reader.read_i64(bits)?)
 }
diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 537ffc6..9bf6b7f 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -1,16 +1,16 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(writer.write_u64(v, bits)?)
 }
 
 pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataDoesNotFit);
     }
     Ok(writer.write_i64(v, bits)?)
 }
-- 
2.43.0


From e4deac5cbf5e2ac7f90f66c9248bfa9d6ba9da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 05/67] fix: reject bit field values that do not fit their
 width instead of truncating them

---
 crates/zserio/src/ztype/bits_encode.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 9bf6b7f..97d038d 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -5,6 +5,9 @@ pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<(
     if bits > 64 {
         return Err(ZserioError::DataDoesNotFit);
     }
+    if bits < 64 && (v >> bits) != 0 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     Ok(writer.write_u64(v, bits)?)
 }
 
@@ -12,6 +15,16 @@ pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()>
     if bits > 64 {
         return Err(ZserioError::DataDoesNotFit);
     }
+    if bits == 0 {
+        if v != 0 {
+            return Err(ZserioError::DataDoesNotFit);
+        }
+    } else if bits < 64 {
+        let limit = 1_i64 << (bits - 1);
+        if v < -limit || v >= limit {
+            return Err(ZserioError::DataDoesNotFit);
+        }
+    }
     Ok(writer.write_i64(v, bits)?)
 }
 
-- 
2.43.0


From 5eef0582023798a18f57d86a6710171f187d0e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:55 +0000
Subject: [PATCH 06/67] fix: truncated string and extern data is reported as an
 error instead of a panic

---
 crates/zserio/src/ztype/extern_type.rs   | 4 +---
 crates/zserio/src/ztype/string_decode.rs | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..3bc38f2 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..e35ab45 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader)? as usize;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
-- 
2.43.0


From dc0153d8989a3efc12756be5e3fcbb6da44c538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 07/67] fix: length prefixes are range checked instead of
 truncated to 32 bits

---
 crates/zserio/src/ztype/array.rs         | 12 ++++++++----
 crates/zserio/src/ztype/string_encode.rs | 11 +++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/zserio/src/ztype/array.rs b/crates/zserio/src/ztype/array.rs
index f9de41c..9125681 100644
--- a/crates/zserio/src/ztype/array.rs
+++ b/crates/zserio/src/ztype/array.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::array_traits::array_trait::ArrayTrait;
 use crate::ztype::read_varsize;
 use crate::ztype::varsize_bitsize;
@@ -60,7 +60,7 @@ impl<T> Array<T> {
             assert_eq!(expected_array_len, data.len());
         } else {
             // for auto arrays, write the length of the array
-            write_varsize(writer, data.len() as u32)?;
+            write_varsize(writer, array_len_as_varsize(data.len())?)?;
         }
 
         if data.is_empty() {
@@ -171,7 +171,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(array_len_as_varsize(data.len())?)? as u64;
         }
         if !data.is_empty() {
             if self.is_packed {
@@ -222,7 +222,7 @@ impl<T> Array<T> {
     ) -> Result<u64> {
         let mut end_position = bit_position;
         if self.fixed_size.is_none() {
-            end_position += varsize_bitsize(data.len() as u32)? as u64;
+            end_position += varsize_bitsize(array_len_as_varsize(data.len())?)? as u64;
         }
         if !data.is_empty() {
             let mut packing_context_node = self.array_trait.create_context();
@@ -245,6 +245,10 @@ impl<T> Array<T> {
     }
 }
 
+fn array_len_as_varsize(len: usize) -> Result<u32> {
+    u32::try_from(len).map_err(|_| ZserioError::DataDoesNotFit)
+}
+
 fn align_array_element_writer<T: OffsetTrait>(
     writer: &mut BitWriter,
     _index: usize,
diff --git a/crates/zserio/src/ztype/string_encode.rs b/crates/zserio/src/ztype/string_encode.rs
index 65b3346..8781cfd 100644
--- a/crates/zserio/src/ztype/string_encode.rs
+++ b/crates/zserio/src/ztype/string_encode.rs
@@ -1,14 +1,16 @@
 use rust_bitwriter::BitWriter;
 
-use crate::error::Result;
-use crate::ztype::unsigned_bitsize;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varsize_bitsize;
 
 use super::varuint_encode::write_varsize;
 
 pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
     let string_bytes = s.as_bytes();
 
-    write_varsize(writer, string_bytes.len() as u32)?;
+    let string_len =
+        u32::try_from(string_bytes.len()).map_err(|_| ZserioError::DataDoesNotFit)?;
+    write_varsize(writer, string_len)?;
 
     for string_byte in string_bytes {
         writer.write_u8(*string_byte, 8)?;
@@ -17,6 +19,7 @@ pub fn write_string(writer: &mut BitWriter, s: &str) -> Result<()> {
 }
 
 pub fn bitsize_string(s: &str) -> Result<u64> {
-    let header_size = unsigned_bitsize(s.len() as u64, 5)? as u64;
+    let string_len = u32::try_from(s.len()).map_err(|_| ZserioError::DataDoesNotFit)?;
+    let header_size = varsize_bitsize(string_len)? as u64;
     Ok(header_size + (s.len() * 8) as u64)
 }
-- 
2.43.0


From 92a9eff493b56c1400703fee1cff127b5c87dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 08/67] fix: string array elements are sized in bits, not bytes

---
 crates/zserio/src/ztype/array_traits/string_array_trait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index c6634a6..dd74c6b 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -1,8 +1,8 @@
 use crate::error::Result;
 use crate::ztype::array_traits::array_trait;
 use crate::ztype::array_traits::packing_context_node::PackingContextNode;
+use crate::ztype::bitsize_string;
 use crate::ztype::read_string;
-use crate::ztype::varsize_bitsize;
 use crate::ztype::write_string;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 + varsize_bitsize(value.len() as u32)? as u64)
+        bitsize_string(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
-- 
2.43.0


From 538db54c36e6cd3b241df2e2969cad96f78eb687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 09/67] fix: bytes and extern values whose size disagrees with
 their data are rejected

---
 crates/zserio/src/ztype/bytes_type.rs  | 7 ++++++-
 crates/zserio/src/ztype/extern_type.rs | 5 +++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index c7d2b85..52f9995 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -1,4 +1,4 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::reader::read_bytes;
 use crate::ztype::writer::write_bytes;
 use crate::ztype::{read_varsize, varsize_bitsize, write_varsize};
@@ -22,6 +22,11 @@ pub fn read_bytes_type(bit_reader: &mut BitReader) -> Result<BytesType> {
 
 /// Writes a zserio bytes type to a bitstream.
 pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> Result<()> {
+    if bytes_type.data_blob.len() != bytes_type.byte_size as usize {
+        return Err(ZserioError::DataError(
+            "size of bytes value does not match its data".into(),
+        ));
+    }
     write_varsize(bit_writer, bytes_type.byte_size)?;
     write_bytes(bit_writer, &bytes_type.data_blob)?;
     Ok(())
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index 3bc38f2..c5389d0 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -53,6 +53,11 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
 /// Writes a zserio extern type to a bitstream.
 pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -> Result<()> {
+    if extern_type.data_blob.len() != extern_type.bit_size.div_ceil(8) as usize {
+        return Err(ZserioError::DataError(
+            "size of extern value does not match its data".into(),
+        ));
+    }
     write_varsize(bit_writer, extern_type.bit_size)?;
     let num_of_full_bytes = (extern_type.bit_size / 8) as usize;
     let remaining_bits = (extern_type.bit_size % 8) as u8;
-- 
2.43.0


From 0226520876159fbb11e708dc582f2b5cfe4b3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 10/67] fix: sizing an oversized bytes or extern value returns
 an error instead of panicking

---
 .../zserio/src/ztype/array_traits/bit_buffer_array_trait.rs   | 2 +-
 .../zserio/src/ztype/array_traits/byte_buffer_array_trait.rs  | 2 +-
 crates/zserio/src/ztype/bytes_type.rs                         | 4 ++--
 crates/zserio/src/ztype/extern_type.rs                        | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
index cc48a22..a878e3a 100644
--- a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
@@ -17,7 +17,7 @@ impl array_trait::ArrayTrait<ztype::ExternType> for BitBufferArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &ztype::ExternType) -> Result<u64> {
-        Ok(ztype::bitsize_of_extern(value))
+        ztype::bitsize_of_extern(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &ztype::ExternType) -> Result<u64> {
diff --git a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
index 33ed52d..4a8c2e9 100644
--- a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
@@ -17,7 +17,7 @@ impl array_trait::ArrayTrait<ztype::BytesType> for ByteBufferArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &ztype::BytesType) -> Result<u64> {
-        Ok(ztype::bitsize_of_bytes(value))
+        ztype::bitsize_of_bytes(value)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &ztype::BytesType) -> Result<u64> {
diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index 52f9995..4a72d7f 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -32,6 +32,6 @@ pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> R
     Ok(())
 }
 
-pub fn bitsize_of_bytes(bytes_type: &BytesType) -> u64 {
-    varsize_bitsize(bytes_type.byte_size).unwrap() as u64 + (bytes_type.byte_size as u64) * 8
+pub fn bitsize_of_bytes(bytes_type: &BytesType) -> Result<u64> {
+    Ok(varsize_bitsize(bytes_type.byte_size)? as u64 + (bytes_type.byte_size as u64) * 8)
 }
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index c5389d0..a286b87 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -77,6 +77,6 @@ pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -
     Ok(())
 }
 
-pub fn bitsize_of_extern(extern_type: &ExternType) -> u64 {
-    varsize_bitsize(extern_type.bit_size).unwrap() as u64 + (extern_type.bit_size as u64)
+pub fn bitsize_of_extern(extern_type: &ExternType) -> Result<u64> {
+    Ok(varsize_bitsize(extern_type.bit_size)? as u64 + (extern_type.bit_size as u64))
 }
-- 
2.43.0


From f1019abdf3b2359407d415264686518ea88a43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 11/67] fix: a truncated packing descriptor is reported as an
 error instead of a panic

---
 .../src/ztype/array_traits/delta_context.rs   | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..74b87be 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -95,7 +95,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -139,7 +139,7 @@ impl DeltaContext {
             self.processing_started = true;
             self.finish_init();
 
-            self.write_descriptor(writer);
+            self.write_descriptor(writer)?;
             return self.write_unpacked(array_traits, writer, element);
         }
         if !self.is_packed {
@@ -162,14 +162,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
@@ -183,14 +182,12 @@ impl DeltaContext {
         Ok(())
     }
 
-    fn write_descriptor(&self, writer: &mut BitWriter) {
-        writer
-            .write_bool(self.is_packed)
-            .expect("failed to write bool");
+    fn write_descriptor(&self, writer: &mut BitWriter) -> Result<()> {
+        writer.write_bool(self.is_packed)?;
         if self.is_packed {
-            ztype::write_unsigned_bits(writer, self.max_bit_number as u64, MAX_BIT_NUMBER_BITS)
-                .unwrap();
+            ztype::write_unsigned_bits(writer, self.max_bit_number as u64, MAX_BIT_NUMBER_BITS)?;
         }
+        Ok(())
     }
 
     fn write_unpacked<T>(
-- 
2.43.0


From 98f794e0ec65e1d39a918ba0bdc1d6ac82303391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 12/67] fix: delta packing uses wrapping arithmetic, deltas may
 cross the i64 boundary

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 74b87be..0b689d3 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -103,7 +103,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element = self.previous_element.wrapping_add(delta as u64);
         }
         *value = array_traits.from_u64(self.previous_element);
         Ok(())
@@ -147,7 +147,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let element_as_u64 = array_traits.to_u64(element);
-            let delta = element_as_u64 as i64 - self.previous_element as i64;
+            let delta = element_as_u64.wrapping_sub(self.previous_element) as i64;
             ztype::write_signed_bits(writer, delta, self.max_bit_number + 1)?;
             self.previous_element = element_as_u64;
         }
-- 
2.43.0


From 8967ad823dad56c03679ac6c50bb256dd2abada8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 13/67] fix: a wrong length of a fixed-size array is an error
 instead of a panic

---
 crates/zserio/src/ztype/array.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array.rs b/crates/zserio/src/ztype/array.rs
index 9125681..47f5099 100644
--- a/crates/zserio/src/ztype/array.rs
+++ b/crates/zserio/src/ztype/array.rs
@@ -57,7 +57,11 @@ impl<T> Array<T> {
     ) -> Result<()> {
         if let Some(expected_array_len) = self.fixed_size {
             // for fixed-size arrays, the provided length must match
-            assert_eq!(expected_array_len, data.len());
+            if expected_array_len != data.len() {
+                return Err(ZserioError::DataError(
+                    "array length does not match the fixed size of the array".into(),
+                ));
+            }
         } else {
             // for auto arrays, write the length of the array
             write_varsize(writer, array_len_as_varsize(data.len())?)?;
-- 
2.43.0


From 725b2f6504fbe2787962dec0a0c1f0a9ed24dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 14/67] fix: align_to handles bit position zero

---
 crates/zserio/src/ztype/bit_alignment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/bit_alignment.rs b/crates/zserio/src/ztype/bit_alignment.rs
index 6ff9de4..8dfbdde 100644
--- a/crates/zserio/src/ztype/bit_alignment.rs
+++ b/crates/zserio/src/ztype/bit_alignment.rs
@@ -7,7 +7,7 @@
 /// let bitcount = align_to(8, 15); // returns 16
 /// ```
 pub fn align_to(align_to_bitcount: u8, bit_position: u64) -> u64 {
-    (((bit_position - 1) / align_to_bitcount as u64) + 1) * align_to_bitcount as u64
+    bit_position.div_ceil(align_to_bitcount as u64) * align_to_bitcount as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From f2ff3f0e064fecf534fc2af24bf60ba1a8edab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 15/67] fix: packed offset initialisation of objects uses their
 packed size, objects have no delta context

---
 crates/zserio/src/ztype/array_traits/object_array_trait.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/object_array_trait.rs b/crates/zserio/src/ztype/array_traits/object_array_trait.rs
index 1267f3c..0dd4b07 100644
--- a/crates/zserio/src/ztype/array_traits/object_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/object_array_trait.rs
@@ -66,12 +66,7 @@ where
         bit_position: u64,
         element: &T,
     ) -> Result<u64> {
-        Ok(bit_position
-            + context_node
-                .context
-                .as_mut()
-                .unwrap()
-                .bitsize_of(self, bit_position, element)?)
+        Ok(bit_position + element.zserio_bitsize_packed(context_node, bit_position)?)
     }
 
     fn read_packed(
-- 
2.43.0


From 1fee58243bd3de1585c43e32b88faaa423a80b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 16/67] fix: arrays of non-integral elements are never
 delta-compressed

---
 .../src/ztype/array_traits/bit_buffer_array_trait.rs     | 9 +++------
 .../zserio/src/ztype/array_traits/boolean_array_trait.rs | 5 +++--
 .../src/ztype/array_traits/byte_buffer_array_trait.rs    | 9 +++------
 .../zserio/src/ztype/array_traits/float16_array_trait.rs | 5 +++--
 .../zserio/src/ztype/array_traits/float32_array_trait.rs | 5 +++--
 .../zserio/src/ztype/array_traits/float64_array_trait.rs | 5 +++--
 .../zserio/src/ztype/array_traits/string_array_trait.rs  | 5 +++--
 7 files changed, 21 insertions(+), 22 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
index a878e3a..5b5d0af 100644
--- a/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_buffer_array_trait.rs
@@ -40,12 +40,9 @@ impl array_trait::ArrayTrait<ztype::ExternType> for BitBufferArrayTrait {
         panic!("delta-encoding not supported for extern types");
     }
 
-    fn init_context(
-        &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::ExternType,
-    ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _: &mut PackingContextNode, _: &ztype::ExternType) -> Result<()> {
+        // Without initialisation, the delta context never chooses delta compression.
+        Ok(())
     }
 
     fn bitsize_of_packed(
diff --git a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
index 53195bf..fad6e67 100644
--- a/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/boolean_array_trait.rs
@@ -39,8 +39,9 @@ impl array_trait::ArrayTrait<bool> for BooleanArrayTrait {
         false // delta-encoding not supported for bool arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &bool) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _: &mut PackingContextNode, _: &bool) -> Result<()> {
+        // Without initialisation, the delta context never chooses delta compression.
+        Ok(())
     }
 
     fn bitsize_of_packed(
diff --git a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
index 4a8c2e9..a44896f 100644
--- a/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/byte_buffer_array_trait.rs
@@ -40,12 +40,9 @@ impl array_trait::ArrayTrait<ztype::BytesType> for ByteBufferArrayTrait {
         panic!("delta-encoding not supported for extern types");
     }
 
-    fn init_context(
-        &self,
-        context_node: &mut PackingContextNode,
-        element: &ztype::BytesType,
-    ) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _: &mut PackingContextNode, _: &ztype::BytesType) -> Result<()> {
+        // Without initialisation, the delta context never chooses delta compression.
+        Ok(())
     }
 
     fn bitsize_of_packed(
diff --git a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
index 1a0be5e..7bff5aa 100644
--- a/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float16_array_trait.rs
@@ -40,8 +40,9 @@ impl array_trait::ArrayTrait<f32> for Float16ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _: &mut PackingContextNode, _: &f32) -> Result<()> {
+        // Without initialisation, the delta context never chooses delta compression.
+        Ok(())
     }
 
     fn bitsize_of_packed(
diff --git a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
index 2364119..ba44690 100644
--- a/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float32_array_trait.rs
@@ -40,8 +40,9 @@ impl array_trait::ArrayTrait<f32> for Float32ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f32) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _: &mut PackingContextNode, _: &f32) -> Result<()> {
+        // Without initialisation, the delta context never chooses delta compression.
+        Ok(())
     }
 
     fn bitsize_of_packed(
diff --git a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
index 79088b9..05a3afd 100644
--- a/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/float64_array_trait.rs
@@ -40,8 +40,9 @@ impl array_trait::ArrayTrait<f64> for Float64ArrayTrait {
         0.0 // delta-encoding not supported for float arrays
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &f64) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _: &mut PackingContextNode, _: &f64) -> Result<()> {
+        // Without initialisation, the delta context never chooses delta compression.
+        Ok(())
     }
 
     fn bitsize_of_packed(
diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index dd74c6b..9dba100 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -42,8 +42,9 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
         "".into() // not supported for strings
     }
 
-    fn init_context(&self, context_node: &mut PackingContextNode, element: &String) -> Result<()> {
-        context_node.context.as_mut().unwrap().init(self, element)
+    fn init_context(&self, _: &mut PackingContextNode, _: &String) -> Result<()> {
+        // Without initialisation, the delta context never chooses delta compression.
+        Ok(())
     }
 
     fn bitsize_of_packed(
-- 
2.43.0


From 64f75f1672e3d0f7aad2232a7dcbbed0e42a827d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 17/67] fix: packed arrays of strings, floats, booleans and
 blobs are written unpacked

---
 .../src/internal/generator/packed_contexts.rs             | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
index 75ed0e8..f4eaa0d 100644
--- a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
+++ b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
@@ -37,12 +37,11 @@ impl FieldDetails {
 
         // confirm if the field can be packed. even in packed mode, some fields
         // may not use packing, for example if they are offset fields.
-        // arrays can always be packed.
+        // arrays can be packed if their elements can be.
         let is_packable = is_delta_packable(
             symbol_scope,
             field.field_type.as_ref(),
             field.is_offset_field,
-            field.array.is_some(),
         );
         FieldDetails {
             field: field_rc.clone(),
@@ -74,15 +73,10 @@ pub fn is_delta_packable(
     model_scope: &ModelScope,
     zserio_type: &TypeReference,
     is_offset_field: bool,
-    is_array: bool,
 ) -> bool {
     if is_offset_field {
         return false;
     }
-    if is_array {
-        // arrays can always be packed, unless overridden by being used as offsets.
-        return true;
-    }
     let fundamental_type = get_fundamental_type(zserio_type, model_scope);
     if fundamental_type.fundamental_type.is_builtin {
         return matches!(
-- 
2.43.0


From 645d6c310aa7af41aff3646b0460698512d97362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:38 +0000
Subject: [PATCH 18/67] fix: bit size of bytes and extern fields includes their
 length prefix

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..e61b6cb 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -41,10 +41,13 @@ pub fn bitsize_type_reference(
                 field_name
             ));
         } else if type_reference.name == "extern" {
-            function.line(format!("end_position += {}.bit_size as u64;", field_name));
+            function.line(format!(
+                "end_position += ztype::bitsize_of_extern(&{})?;",
+                field_name
+            ));
         } else if type_reference.name == "bytes" {
             function.line(format!(
-                "end_position += ({}.byte_size as u64) * 8;",
+                "end_position += ztype::bitsize_of_bytes(&{})?;",
                 field_name
             ));
         } else if type_reference.name == "bool" {
-- 
2.43.0


From 46ae0a12a7cea217a51b53a44c6f7e77302cf3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 19/67] fix: packed bit size of fields with a declared width
 uses the delta context

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index e61b6cb..fc53974 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -53,8 +53,6 @@ pub fn bitsize_type_reference(
         } else if type_reference.name == "bool" {
             // boolean
             function.line("end_position += 1;");
-        } else if type_reference.bits != 0 {
-            function.line(format!("end_position += {};", type_reference.bits));
         } else if packed {
             // packed bitsize
             function.line(format!(
@@ -63,6 +61,8 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if type_reference.bits != 0 {
+            function.line(format!("end_position += {};", type_reference.bits));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
-- 
2.43.0


From 47bb6784da28d905c7c686160ec3eed5a6118dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:02 +0000
Subject: [PATCH 20/67] fix: bit size of fields with a dynamic width uses the
 width expression

---
 .../zserio-rs-build/src/internal/generator/bitsize.rs  | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index fc53974..9ffd201 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -103,9 +103,13 @@ pub fn bitsize_type_reference(
                 "varsize" => {
                     format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
                 }
-                "int" | "bit" => {
-                    format!("{} as u64", type_reference.bits)
-                }
+                "int" | "bit" => match &type_reference.length_expression {
+                    Some(length_expression) => format!(
+                        "u64::from(({}) as u8)",
+                        generate_expression(&length_expression.borrow(), type_generator, scope)
+                    ),
+                    None => format!("{} as u64", type_reference.bits),
+                },
                 _ => panic!("failed"),
             };
             function.line(format!("end_position += {};", bit_length,));
-- 
2.43.0


From f48677498a301860d7686ff2a846aecfea2962f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:14 +0000
Subject: [PATCH 21/67] fix: generated bit size functions return errors instead
 of panicking

---
 .../src/internal/generator/bitsize.rs         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 9ffd201..b76a987 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -23,13 +23,13 @@ pub fn bitsize_type_reference(
         if packed {
             // Use packed bitsize
             function.line(format!(
-                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position).unwrap();",
+                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position)?;",
                 field_name,
                 field_index,
             ));
         } else {
             function.line(format!(
-                "end_position += {}.zserio_bitsize(end_position).unwrap();",
+                "end_position += {}.zserio_bitsize(end_position)?;",
                 field_name
             ));
         }
@@ -37,7 +37,7 @@ pub fn bitsize_type_reference(
         if type_reference.name == "string" {
             // string types
             function.line(format!(
-                "end_position += ztype::bitsize_string({}.as_str()).unwrap();",
+                "end_position += ztype::bitsize_string({}.as_str())?;",
                 field_name
             ));
         } else if type_reference.name == "extern" {
@@ -77,31 +77,31 @@ pub fn bitsize_type_reference(
                 "float32" => String::from("32"),
                 "float64" => String::from("64"),
                 "varint" => {
-                    format!("ztype::varint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint_bitsize({})? as u64", field_name)
                 }
                 "varint16" => {
-                    format!("ztype::varint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint16_bitsize({})? as u64", field_name)
                 }
                 "varint32" => {
-                    format!("ztype::varint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint32_bitsize({})? as u64", field_name)
                 }
                 "varint64" => {
-                    format!("ztype::varint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint64_bitsize({})? as u64", field_name)
                 }
                 "varuint" => {
-                    format!("ztype::varuint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint_bitsize({})? as u64", field_name)
                 }
                 "varuint16" => {
-                    format!("ztype::varuint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint16_bitsize({})? as u64", field_name)
                 }
                 "varuint32" => {
-                    format!("ztype::varuint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint32_bitsize({})? as u64", field_name)
                 }
                 "varuint64" => {
-                    format!("ztype::varuint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint64_bitsize({})? as u64", field_name)
                 }
                 "varsize" => {
-                    format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varsize_bitsize({})? as u64", field_name)
                 }
                 "int" | "bit" => match &type_reference.length_expression {
                     Some(length_expression) => format!(
-- 
2.43.0


From 5926897d2f9fdb2ce0ff1303cc26ae2341dd6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 22/67] fix: packed unions carry their selector and packing
 contexts

---
 .../src/internal/generator/zunion.rs          | 57 +++++++++++++++++--
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..cce1362 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,13 +5,19 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
 
 use std::path::Path;
 
+/// In packed mode, the union selector is delta-packed like a varsize field.
+const SELECTOR_CONTEXT: &str = "context_node.children[0].context.as_mut().unwrap()";
+const SELECTOR_ARRAY_TRAIT: &str = "ztype::array_traits::VarSizeArrayTrait {}";
+
 pub fn generate_struct_member_for_field(
     type_generator: &mut TypeGenerator,
     gen_struct: &mut Struct,
@@ -127,11 +133,40 @@ pub fn generate_union(
     // Generate the packed contexts.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    // The first context belongs to the selector, followed by the ones of the fields.
+    create_packing_context_fn.line("context_node.children.push(PackingContextNode { children: vec![], context: Some(DeltaContext::new()), });");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
+        generate_packed_context_for_field(create_packing_context_fn, &field_details);
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    init_packing_context_fn.line(format!(
+        "{SELECTOR_CONTEXT}.init(&{SELECTOR_ARRAY_TRAIT}, &(self.union_selector as u32))?;"
+    ));
+    // Only the selected field is written, hence only its context is initialized.
+    init_packing_context_fn.line("match &self.union_selector {");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        init_packing_context_fn.line(format!(
+            "{}::{} => {{",
+            selector_type_name,
+            convert_to_union_selector_name(&field.borrow().name)
+        ));
+        let field_details =
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
+        generate_init_packed_context_for_field(
+            symbol_scope,
+            type_generator,
+            init_packing_context_fn,
+            &field_details,
+        );
+        init_packing_context_fn.line("},");
+    }
+    init_packing_context_fn.line("}");
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -166,14 +201,14 @@ pub fn generate_union_match_construct(
     let selector_type_name = format!("{}Selector", &rust_type_name);
 
     code_gen_fn.line("match &self.union_selector {");
-    for (context_node_index, field) in zunion.fields.iter().enumerate() {
+    for (field_index, field) in zunion.fields.iter().enumerate() {
         code_gen_fn.line(format!(
             "{}::{} => {{",
             selector_type_name,
             convert_to_union_selector_name(&field.borrow().name)
         ));
         let field_details =
-            FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
+            FieldDetails::from_field(field, field_index + 1, symbol_scope, type_generator);
         instantiate_zserio_array(
             symbol_scope,
             type_generator,
@@ -225,6 +260,14 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    zserio_read_packed_fn.line("let mut selector: u32 = 0;");
+    zserio_read_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.read(&{SELECTOR_ARRAY_TRAIT}, reader, &mut selector)?;"
+    ));
+    zserio_read_packed_fn.line(format!(
+        "self.union_selector = {}Selector::from_u32(selector);",
+        rust_type_name
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -262,8 +305,9 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
-    zserio_write_packed_fn
-        .line("ztype::write_varsize(writer, self.union_selector as u32)?;".to_string());
+    zserio_write_packed_fn.line(format!(
+        "{SELECTOR_CONTEXT}.write(&{SELECTOR_ARRAY_TRAIT}, writer, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -303,6 +347,9 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn.line(format!(
+        "end_position += {SELECTOR_CONTEXT}.bitsize_of(&{SELECTOR_ARRAY_TRAIT}, end_position, &(self.union_selector as u32))?;"
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From 3d05f09812ca617cfdfa0c067ec508f8eafaedcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:39 +0000
Subject: [PATCH 23/67] fix: an unknown union selector is an error instead of a
 panic

---
 .../zserio-rs-build/src/internal/generator/zunion.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index cce1362..e488c6f 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -76,18 +76,20 @@ pub fn generate_union(
     let union_selector_impl_gen_scope = codegen_scope.new_impl(&selector_type_name);
     let union_selector_from_fn_scope = union_selector_impl_gen_scope.new_fn("from_u32");
     union_selector_from_fn_scope.arg("value", "u32");
-    union_selector_from_fn_scope.ret(&selector_type_name);
+    union_selector_from_fn_scope.ret(format!("Result<{selector_type_name}>"));
     union_selector_from_fn_scope.vis("pub");
     union_selector_from_fn_scope.line("match value {");
     for (field_index, field) in zunion.fields.iter().enumerate() {
         let selector_union_name = convert_to_union_selector_name(&field.borrow().name);
         union_selector_from_fn_scope.line(format!(
-            "{} => {}::{},",
+            "{} => Ok({}::{}),",
             field_index, selector_type_name, selector_union_name
         ));
     }
 
-    union_selector_from_fn_scope.line("_ => panic!(\"unsupported value\"),");
+    union_selector_from_fn_scope.line(format!(
+        "_ => Err(zserio::ZserioError::DataError(format!(\"unexpected selector for {rust_type_name}: {{}}\", value))),"
+    ));
     union_selector_from_fn_scope.line("}");
 
     // generate the union itself
@@ -241,7 +243,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
     zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
+        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?)?;",
         rust_type_name
     ));
 
@@ -265,7 +267,7 @@ fn generate_zserio_read(
         "{SELECTOR_CONTEXT}.read(&{SELECTOR_ARRAY_TRAIT}, reader, &mut selector)?;"
     ));
     zserio_read_packed_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(selector);",
+        "self.union_selector = {}Selector::from_u32(selector)?;",
         rust_type_name
     ));
     generate_union_match_construct(
-- 
2.43.0


From 9af57ef80382f8de69d01ece4989a18f7299bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 24/67] fix: decoding an absent optional field resets it

---
 crates/zserio-rs-build/src/internal/generator/decode.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..f736e4c 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -438,7 +438,12 @@ pub fn decode_field(
             "self.{} = Option::from(optional_value);",
             TypeGenerator::convert_field_name(&field.name)
         ));
-        function.line("}"); // close the "if present {"
+        function.line("} else {"); // close the "if present {"
+        function.line(format!(
+            "self.{} = None;",
+            TypeGenerator::convert_field_name(&field.name)
+        ));
+        function.line("}");
     }
 
     function.line("}");
-- 
2.43.0


From ca973d486072121daeacc8f359afe7ba654584dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 25/67] fix: choices initialise only the context of the
 selected case and generate their default case

---
 .../src/internal/generator/zchoice.rs         | 87 ++++++++++---------
 1 file changed, 44 insertions(+), 43 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..95aac9a 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -101,14 +101,16 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    // Only the selected field is written, hence only its context is initialized.
+    generate_choice_match(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        &|scope, type_generator, function, field_details| {
+            generate_init_packed_context_for_field(scope, type_generator, function, field_details)
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -131,13 +133,13 @@ pub fn generate_choice(
     rust_module_name
 }
 
-pub fn generate_choice_match_construct(
+/// Generates the match statement which selects the case, applying `f` to the field of each case.
+fn generate_choice_match(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     code_gen_fn: &mut Function,
     zchoice: &ZChoice,
-    packed: bool,
-    f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
+    f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails),
 ) {
     let selector_name =
         TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
@@ -160,53 +162,52 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &case.field {
             let field_details =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                field_details.is_packable,
-            );
             context_node_index += 1;
-            f(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field_details,
-                packed,
-            );
+            f(symbol_scope, type_generator, code_gen_fn, &field_details);
         }
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                false,
-                default_field.is_packable,
-            );
-            f(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &default_field,
-                packed,
-            );
+            f(symbol_scope, type_generator, code_gen_fn, &default_field);
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
         code_gen_fn.line("_ => (),");
     }
     code_gen_fn.line("}");
 }
 
+pub fn generate_choice_match_construct(
+    symbol_scope: &ModelScope,
+    type_generator: &mut TypeGenerator,
+    code_gen_fn: &mut Function,
+    zchoice: &ZChoice,
+    packed: bool,
+    f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
+) {
+    generate_choice_match(
+        symbol_scope,
+        type_generator,
+        code_gen_fn,
+        zchoice,
+        &|scope, type_generator, function, field_details| {
+            instantiate_zserio_array(
+                scope,
+                type_generator,
+                function,
+                &field_details.field.borrow(),
+                packed,
+                field_details.is_packable,
+            );
+            f(scope, type_generator, function, field_details, packed);
+        },
+    );
+}
+
 fn generate_zserio_read(
     symbol_scope: &ModelScope,
     type_generator: &mut TypeGenerator,
-- 
2.43.0


From 9f051bef5ea37efa085634cb387bb820dbad02e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:00 +0000
Subject: [PATCH 26/67] fix: the default case of a choice is part of the
 generated code

---
 .../src/internal/generator/pass_parameters.rs    | 16 +++++++++++++---
 crates/zserio-rs-build/src/internal/visitor.rs   | 10 +++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
index 4d3458c..f10413e 100644
--- a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
+++ b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
@@ -1,5 +1,5 @@
 use crate::internal::ast::{
-    expression::Expression, parameter::Parameter, type_reference::TypeReference,
+    expression::Expression, parameter::Parameter, type_reference::TypeReference, zchoice::ZChoice,
 };
 
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
@@ -26,7 +26,7 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     match symbol.symbol {
         Symbol::Choice(zchoice) => {
             let zchoice = zchoice.borrow();
-            zchoice.cases.len() + zchoice.type_parameters.len()
+            number_of_choice_data_fields(&zchoice) + zchoice.type_parameters.len()
         }
         Symbol::Struct(zstruct) => {
             let zstruct = zstruct.borrow();
@@ -40,13 +40,23 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     }
 }
 
+/// Only cases with a field (including the default case) have a field in the rust struct.
+fn number_of_choice_data_fields(zchoice: &ZChoice) -> usize {
+    zchoice
+        .cases
+        .iter()
+        .chain(&zchoice.default_case)
+        .filter(|case| case.field.is_some())
+        .count()
+}
+
 /// Return only the number of *data* fields (excluding type parameters) of the rust struct
 /// generated for this type. This is used to decide whether `..Default::default()` is needed
 /// in a struct literal that has already set all type-parameter fields explicitly.
 pub fn number_of_data_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     let symbol = scope.get_symbol(type_ref);
     match symbol.symbol {
-        Symbol::Choice(zchoice) => zchoice.borrow().cases.len(),
+        Symbol::Choice(zchoice) => number_of_choice_data_fields(&zchoice.borrow()),
         Symbol::Struct(zstruct) => zstruct.borrow().fields.len(),
         Symbol::Union(zunion) => zunion.borrow().fields.len(),
         _ => 0,
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..a1cdc97 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,15 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        // visit the default case, if there is one
+        if let Some(default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(choice_case) => {
+                    choice.default_case = Some(choice_case)
+                }
+                _ => panic!("choice default case type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
-- 
2.43.0


From a861b2743ed6e8c1e36bfe7f769d1026b44bf4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:54 +0000
Subject: [PATCH 27/67] fix: the bitwise complement is generated as rust
 operator

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..117e4df 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -367,7 +367,8 @@ fn generate_bitwise_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "~{}",
+        // the bitwise complement of rust
+        "!{}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
-- 
2.43.0


From 35a9bba0732a1c9a3f2006e238d93b687d36db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 28/67] fix: isset and valueof keep their precedence inside
 larger expressions

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 117e4df..9a036ca 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -242,7 +242,7 @@ fn generate_isset_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{} & ({}) != 0",
+        "({} & ({}) != 0)",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope)
     )
@@ -262,7 +262,7 @@ fn generate_valueof_expression(
     };
 
     format!(
-        "{}{} as {}",
+        "({}{} as {})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         bitmask_suffix,
         type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
-- 
2.43.0


From a81aa5149306e1590fc13cb2917080e3cef9bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:20 +0000
Subject: [PATCH 29/67] fix: binary literals are generated

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 9a036ca..4aba0ba 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -448,6 +448,7 @@ fn generate_literal_expression(expression: &Expression) -> String {
         DECIMAL_LITERAL => i32::to_string(&int_value),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
+        BINARY_LITERAL => format!("{int_value:#b}"),
         FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
         BOOL_LITERAL => {
             if bool_value {
-- 
2.43.0


From d6ff1417aeda6b8a16923de1e497af42f50bcaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:31 +0000
Subject: [PATCH 30/67] fix: choice template parameters are substituted by
 their type name

---
 .../src/internal/compiler/template_instantiation.rs           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index a429423..13d63b9 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -284,14 +284,14 @@ fn instantiate_choice(
     for rc_param in &z_choice.type_parameters {
         // Check if the parameter is a templated type
         let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.name) {
+        if instantiated_types.contains_key(&param.zserio_type.name) {
             // The parameter is a templated type, so replace the parameter
             // type by a reference to the newly instantiated type.
             instantiated_choice
                 .type_parameters
                 .push(Rc::new(RefCell::new(Parameter {
                     name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.name].clone()),
+                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
                 })));
         } else {
             // The parameter is not templated, and is not affected by template instantiation.
-- 
2.43.0


From ddfd65bdfc3f4b1801e8bd977dfcf157a4c038eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 31/67] fix: implicit arrays are rejected instead of being
 written with a length

---
 crates/zserio-rs-build/src/internal/visitor.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index a1cdc97..bd67d26 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -605,6 +605,10 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                 _ => panic!("should not happen"),
             };
 
+        if ctx.IMPLICIT().is_some() {
+            panic!("field {field_name}: implicit arrays are not supported");
+        }
+
         // check if the field is an array
         let mut array: Option<Array> = None;
         if let Some(rc_arr_ctx) = ctx.fieldArrayRange() {
-- 
2.43.0


From 670d0ae6a0efd18cc14f8069c0ea3314529936af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:04 +0000
Subject: [PATCH 32/67] fix: a symbol import takes precedence over other
 imported packages

---
 .../src/internal/compiler/symbol_scope.rs           | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0bbb258..3fd4bba 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -118,6 +118,19 @@ impl ModelScope {
             return symbol;
         }
 
+        // An import of exactly this symbol wins over other packages which happen to contain
+        // a symbol with the same name.
+        for import in &package_scope.imports {
+            if import.symbol_name.as_ref() == Some(name) {
+                let package_name = import.package_dir.join(".");
+                if let Some(imported_package) = self.package_scopes.get(&package_name) {
+                    if imported_package.file_symbols.contains_key(name) {
+                        return imported_package.get_symbol(name);
+                    }
+                }
+            }
+        }
+
         // Try to find the symbol in the imported packages.
         let mut imports_to_process = vec![];
         for reference in package_scope.imports.iter() {
-- 
2.43.0


From 0003f4aae90b23820725072e149ad6e1ffe5654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:21 +0000
Subject: [PATCH 33/67] fix: template instances do not share expressions, and
 their names are unambiguous

---
 .../src/internal/ast/expression.rs            |  5 ++
 .../zserio-rs-build/src/internal/ast/field.rs | 24 ++++++++-
 .../src/internal/ast/type_reference.rs        | 20 +++++++-
 .../compiler/template_instantiation.rs        | 51 ++++++++++++++-----
 4 files changed, 84 insertions(+), 16 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..db6eb33 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -69,6 +69,11 @@ pub struct Expression {
     pub evaluation_state: EvaluationState,
 }
 
+/// Creates a copy of an expression, which can be evaluated independently of the original.
+pub fn detached_expression(expression: &Rc<RefCell<Expression>>) -> Rc<RefCell<Expression>> {
+    Rc::new(RefCell::new(expression.borrow().clone()))
+}
+
 impl Expression {
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         // An expression that is already fully resolved does not require evaluation.
diff --git a/crates/zserio-rs-build/src/internal/ast/field.rs b/crates/zserio-rs-build/src/internal/ast/field.rs
index 97862a4..73c4445 100644
--- a/crates/zserio-rs-build/src/internal/ast/field.rs
+++ b/crates/zserio-rs-build/src/internal/ast/field.rs
@@ -1,4 +1,7 @@
-use crate::internal::ast::{expression::Expression, type_reference::TypeReference};
+use crate::internal::ast::{
+    expression::{detached_expression, Expression},
+    type_reference::TypeReference,
+};
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::compiler::symbol_scope::Symbol;
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
@@ -63,6 +66,25 @@ pub struct Field {
 }
 
 impl Field {
+    /// Creates a copy of the field which doesn't share any expression with the original.
+    /// This is required when instantiating templates, because the evaluation result of an
+    /// expression depends on the types of the instantiation.
+    pub fn detached_clone(&self) -> Field {
+        let mut field = self.clone();
+        field.field_type = Box::new(self.field_type.detached_clone());
+        field.initializer = self.initializer.as_ref().map(detached_expression);
+        field.offset = self.offset.as_ref().map(detached_expression);
+        field.constraint = self.constraint.as_ref().map(detached_expression);
+        field.optional_clause = self.optional_clause.as_ref().map(detached_expression);
+        if let Some(array) = field.array.as_mut() {
+            array.array_length_expression = array
+                .array_length_expression
+                .as_ref()
+                .map(detached_expression);
+        }
+        field
+    }
+
     /// Evaluates all expressions within the field.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         self.field_type.evaluate(scope);
diff --git a/crates/zserio-rs-build/src/internal/ast/type_reference.rs b/crates/zserio-rs-build/src/internal/ast/type_reference.rs
index 5a4c25a..7ac33d6 100644
--- a/crates/zserio-rs-build/src/internal/ast/type_reference.rs
+++ b/crates/zserio-rs-build/src/internal/ast/type_reference.rs
@@ -1,4 +1,4 @@
-use crate::internal::ast::expression::Expression;
+use crate::internal::ast::expression::{detached_expression, Expression};
 use crate::internal::compiler::symbol_scope::ModelScope;
 use std::cell::RefCell;
 use std::rc::Rc;
@@ -28,6 +28,24 @@ impl TypeReference {
         }
     }
 
+    /// Creates a copy of the type reference which doesn't share any expression with the original.
+    pub fn detached_clone(&self) -> TypeReference {
+        let mut type_reference = self.clone();
+        type_reference.template_arguments = self
+            .template_arguments
+            .iter()
+            .map(TypeReference::detached_clone)
+            .collect();
+        type_reference.type_arguments = self
+            .type_arguments
+            .iter()
+            .map(detached_expression)
+            .collect();
+        type_reference.length_expression =
+            self.length_expression.as_ref().map(detached_expression);
+        type_reference
+    }
+
     pub fn evaluate(&self, scope: &mut ModelScope) {
         for type_argument in &self.type_arguments {
             type_argument.as_ref().borrow_mut().evaluate(scope);
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 13d63b9..4b1eb2f 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,4 +1,4 @@
-use crate::internal::ast::expression::Expression;
+use crate::internal::ast::expression::{detached_expression, Expression};
 use crate::internal::ast::field::Field;
 use crate::internal::ast::package::ZPackage;
 use crate::internal::ast::parameter::Parameter;
@@ -75,7 +75,12 @@ pub fn instantiate_type(
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     let mut new_name = type_reference.name.clone();
     for template_arg in &type_reference.template_arguments {
-        new_name += template_arg.name.as_str();
+        // Nested template arguments and the width of bit fields are part of the name, because
+        // they also result in different types.
+        new_name += generate_instantiated_name(template_arg).as_str();
+        if template_arg.name == "bit" || template_arg.name == "int" {
+            new_name += template_arg.bits.to_string().as_str();
+        }
     }
     new_name
 }
@@ -171,13 +176,17 @@ fn instantiate_struct(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: detached_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_struct
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(ZFunction {
+                    name: function.name.clone(),
+                    result: detached_expression(&function.result),
+                    return_type: Box::new(function.return_type.detached_clone()),
+                })));
         }
     }
 
@@ -237,7 +246,7 @@ fn instantiate_choice(
         name: instantiated_name.clone(),
         template_parameters: vec![],
         type_parameters: vec![],
-        selector_expression: z_choice.selector_expression.clone(),
+        selector_expression: detached_expression(&z_choice.selector_expression),
         cases: vec![],
         default_case: None,
         functions: vec![],
@@ -246,7 +255,7 @@ fn instantiate_choice(
     // Instantiate the choice fields
     for case in &z_choice.cases {
         instantiated_choice.cases.push(ZChoiceCase {
-            conditions: case.conditions.clone(),
+            conditions: case.conditions.iter().map(detached_expression).collect(),
             field: {
                 if let Some(field) = &case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -264,7 +273,11 @@ fn instantiate_choice(
     // Instantiate the default field, if present
     if let Some(default_case) = &z_choice.default_case {
         instantiated_choice.default_case = Option::from(ZChoiceCase {
-            conditions: default_case.conditions.clone(),
+            conditions: default_case
+                .conditions
+                .iter()
+                .map(detached_expression)
+                .collect(),
             field: {
                 if let Some(field) = &default_case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -310,13 +323,17 @@ fn instantiate_choice(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: detached_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_choice
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(ZFunction {
+                    name: function.name.clone(),
+                    result: detached_expression(&function.result),
+                    return_type: Box::new(function.return_type.detached_clone()),
+                })));
         }
     }
     // Add the newly added choice to the package.
@@ -421,13 +438,17 @@ fn instantiate_union(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: detached_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_union
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(ZFunction {
+                    name: function.name.clone(),
+                    result: detached_expression(&function.result),
+                    return_type: Box::new(function.return_type.detached_clone()),
+                })));
         }
     }
 
@@ -446,7 +467,7 @@ pub fn instantiate_field(
     field: &Field,
     instantiated_types: &HashMap<String, TypeReference>,
 ) -> Field {
-    let mut new_field = field.clone();
+    let mut new_field = field.detached_clone();
     if !new_field.field_type.template_arguments.is_empty() {
         // The field type is not a template type itself, but by itself is a template,
         // which is using the template type in its template parameters.
@@ -474,10 +495,12 @@ pub fn instantiate_field(
     if instantiated_types.contains_key(&field.field_type.name) {
         new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
         // copy the parameters, if set
-        new_field
+        new_field.field_type.type_arguments = field
             .field_type
             .type_arguments
-            .clone_from(&field.field_type.type_arguments);
+            .iter()
+            .map(detached_expression)
+            .collect();
     }
     new_field
 }
-- 
2.43.0


From 26a186e1c3df05c54c71ab770ed057d3f1f052bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 34/67] fix: generated names do not collide with rust keywords

---
 .../src/internal/generator/types.rs               | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index a1fca93..1949b29 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -24,7 +24,7 @@ impl TypeGenerator {
     }
 
     pub fn convert_field_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_identifier(remove_reserved_identifier(name).to_snake_case_with_nums_as_word())
     }
 
     pub fn ztype_to_rust_type(&mut self, ztype: &TypeReference) -> String {
@@ -51,7 +51,7 @@ impl TypeGenerator {
     }
 
     pub fn to_rust_module_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_identifier(remove_reserved_identifier(name).to_snake_case_with_nums_as_word())
     }
 
     pub fn to_rust_type_name(name: &str) -> String {
@@ -85,6 +85,15 @@ fn remove_reserved_identifier(name: &str) -> &str {
     }
 }
 
+/// Prefixes names which would otherwise collide with a rust keyword.
+fn to_rust_identifier(name: String) -> String {
+    if name.is_empty() || syn::parse_str::<syn::Ident>(&name).is_ok() {
+        name
+    } else {
+        format!("z_{}", name)
+    }
+}
+
 /// Translates a zserio name to a rust constant name.
 pub fn to_rust_constant_name(name: &str) -> String {
     remove_reserved_identifier(name).to_ascii_uppercase()
@@ -100,7 +109,7 @@ pub fn convert_to_union_selector_name(field_name: &str) -> String {
 
 pub fn convert_to_function_name(name: &str) -> String {
     // Converts a function name from zserio style to rust style (snake case).
-    remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+    to_rust_identifier(remove_reserved_identifier(name).to_snake_case_with_nums_as_word())
 }
 
 pub fn zserio_to_rust_type(name: &str) -> Result<String, &'static str> {
-- 
2.43.0


From ee5833ed36ffa3f67a7abe7ed1a0236a25d1378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:45 +0000
Subject: [PATCH 35/67] fix: literals cover the whole range of the zserio types

---
 crates/zserio-rs-build/src/internal/ast/expression.rs    | 6 +++---
 .../zserio-rs-build/src/internal/generator/expression.rs | 4 ++--
 crates/zserio-rs-build/src/internal/visitor.rs           | 9 +++++----
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index db6eb33..aa96af2 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -27,7 +27,7 @@ pub enum ExpressionFlag {
 
 #[derive(Clone, Debug)]
 pub enum ExpressionType {
-    Integer(i32),
+    Integer(i128),
     Float(f64),
     String(String),
     Bool(bool),
@@ -328,7 +328,7 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i32);
+                    self.result_type = ExpressionType::Integer(numbits(value) as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
@@ -364,7 +364,7 @@ impl Expression {
         }
     }
 
-    fn evaluate_integer_comparison_expression(&mut self, mut value1: i32, mut value2: i32) {
+    fn evaluate_integer_comparison_expression(&mut self, mut value1: i128, mut value2: i128) {
         if !self.operand1.as_ref().unwrap().fully_resolved {
             value1 = 1;
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 4aba0ba..ff3cf15 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -445,11 +445,11 @@ fn generate_literal_expression(expression: &Expression) -> String {
     };
 
     match expression.expression_type {
-        DECIMAL_LITERAL => i32::to_string(&int_value),
+        DECIMAL_LITERAL => i128::to_string(&int_value),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
         BINARY_LITERAL => format!("{int_value:#b}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{:?}", &float_value),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index bd67d26..9c5c142 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -955,18 +955,18 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.DECIMAL_LITERAL().is_some() => ExpressionType::Integer(
                 literal_text
-                    .parse::<i32>()
+                    .parse::<i128>()
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_start_matches("0x"), 16)
+                i128::from_str_radix(&literal_text[2..], 16)
                     .expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
+                i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches('b'), 2)
+                i128::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
@@ -975,6 +975,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
+                    .trim_end_matches(['f', 'F'])
                     .parse::<f64>()
                     .expect("failed to parse float32 expression"),
             ),
-- 
2.43.0


From d7260d0fcf9d597e81d69d4f84354b5c41894e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 36/67] fix: 64 bit and bit field operands can be mixed in
 expressions

---
 .../src/internal/ast/evaluate_mixing_native_types.rs       | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..4ca2d84 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -48,6 +48,9 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
         "uint8" => 8,
         "uint16" => 16,
         "uint32" => 32,
+        "uint64" => 64,
+        // bit fields without a known length use the 64 bit types
+        "int" | "bit" => 64,
         "varuint16" => 15,
         "varuint32" => 29,
         "varuint64" => 57,
@@ -63,6 +66,7 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "int16" => true,
         "int32" => true,
         "int64" => true,
+        "int" => true,
         "varint16" => true,
         "varint32" => true,
         "varint64" => true,
@@ -70,6 +74,8 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "uint8" => false,
         "uint16" => false,
         "uint32" => false,
+        "uint64" => false,
+        "bit" => false,
         "varuint16" => false,
         "varuint32" => false,
         "varuint64" => false,
@@ -85,6 +91,7 @@ pub fn convert_to_unsigned(int_type_name: &str) -> String {
         "int16" => "uint16".into(),
         "int32" => "uint32".into(),
         "int64" => "uint64".into(),
+        "int" => "bit".into(),
         "varint16" => "varuint16".into(),
         "varint32" => "varuint32".into(),
         "varint64" => "varuint64".into(),
-- 
2.43.0


From c997a2f82b08cc0a57b8001befb092ae28d90c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 37/67] fix: enums and bitmasks can use a subtype as underlying
 type

---
 .../src/internal/generator/zbitmask.rs             | 12 +++++-------
 .../src/internal/generator/zenum.rs                | 14 ++++++--------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
index f7449b2..bbb7a17 100644
--- a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
@@ -63,9 +63,9 @@ pub fn generate_bitmask(
     z_impl.impl_trait("ztype::ZserioPackableObject");
 
     // generate the functions to serialize/deserialize
-    generate_zserio_read(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_read(scope, type_generator, z_impl, &fundamental_type);
     generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -92,7 +92,6 @@ fn generate_zserio_read(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let zserio_read_fn = impl_codegen.new_fn("zserio_read");
@@ -105,7 +104,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+            zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -122,7 +121,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
     ));
     decode_type(
         scope,
@@ -182,12 +181,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(self.bits as {})",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
+        zserio_to_rust_type(fundamental_type.fundamental_type.name.as_str()).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 7ad0bf0..fc55f33 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -97,8 +97,8 @@ pub fn generate_enum(
 
     // generate the functions to serialize/deserialize
     generate_zserio_read(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_write(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zenum, &fundamental_type);
+    generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -142,7 +142,7 @@ fn generate_zserio_read(
         zserio_read_fn,
         &format!(
             "let v: {}",
-            zserio_to_rust_type(&zenum.enum_type.name).unwrap()
+            zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
         ),
         &String::from(""),
         fundamental_type,
@@ -159,7 +159,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.ret("Result<()>");
     zserio_read_packed_fn.line(format!(
         "let mut v: {} = 0;",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     ));
     decode_type(
         scope,
@@ -179,12 +179,11 @@ fn generate_zserio_write(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let zserio_write_fn = impl_codegen.new_fn("zserio_write");
@@ -223,12 +222,11 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
     let rust_type_name = format!(
         "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
+        zserio_to_rust_type(&fundamental_type.fundamental_type.name).unwrap()
     );
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
-- 
2.43.0


From 58548ad15f73ce5d3bd07058cc3fbd07b53e2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 38/67] fix: choices select on the whole selector expression

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 95aac9a..ac5ef46 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -141,11 +141,14 @@ fn generate_choice_match(
     zchoice: &ZChoice,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails),
 ) {
-    let selector_name =
-        TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
+    let selector = generate_expression(
+        &zchoice.selector_expression.as_ref().borrow(),
+        type_generator,
+        symbol_scope,
+    );
     let mut context_node_index = 0;
 
-    code_gen_fn.line(format!("match self.{} {{", selector_name));
+    code_gen_fn.line(format!("match {} {{", selector));
 
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
-- 
2.43.0


From 400300cb6b5b45374efdcaceb1ae4f22ca5fb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 39/67] fix: constants are cast to their declared type

---
 .../src/internal/generator/zconst.rs            | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..f445e7d 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,6 +1,7 @@
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::file_generator::write_to_file;
 use crate::internal::generator::preamble::add_standard_imports;
@@ -40,15 +41,21 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value_expression = zconst.value_expression.borrow();
+    let mut value = generate_expression(&value_expression, type_generator, symbol_scope);
+    if expression_requires_cast(
+        &fundamental_type.fundamental_type,
+        type_generator,
+        &value_expression,
+    ) {
+        value = format!("({}) as {}", value, field_type);
+    }
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        value,
     )
     .as_str();
 
-- 
2.43.0


From 7cc3bcb4051d949e5cf4befe947e6264352966e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 40/67] fix: functions may return compound types

---
 .../src/internal/generator/function.rs             | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..c4887f2 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zfunction::ZFunction;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::expression::generate_expression;
@@ -35,6 +36,19 @@ pub fn generate_function(
                 scope
             ),
         ));
+    } else if matches!(
+        zserio_function.result.as_ref().borrow().result_type,
+        ExpressionType::Compound
+    ) {
+        // Compound types cannot be moved out of the object.
+        fn_gen_scope.line(format!(
+            "({}).clone()",
+            generate_expression(
+                &zserio_function.result.as_ref().borrow(),
+                type_generator,
+                scope
+            ),
+        ));
     } else {
         // Generate the function content.
         fn_gen_scope.line(format!(
-- 
2.43.0


From 2fccba4977dff3b9f48930941cf1dbfbca7073b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:44 +0000
Subject: [PATCH 41/67] fix: comparisons and parameter arguments keep their
 precedence in generated code

---
 .../src/internal/generator/decode.rs           |  6 +++---
 .../src/internal/generator/encode.rs           | 14 +++++++++-----
 .../src/internal/generator/expression.rs       | 18 ++++++++++++++++--
 3 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index f736e4c..febab5c 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -240,7 +240,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -343,7 +343,7 @@ pub fn decode_field(
                     requires_cloning = ".clone()".into();
                 }
                 let mut rvalue = format!(
-                    "{}{}",
+                    "({}){}",
                     generate_expression(&type_argument, type_generator, scope),
                     requires_cloning
                 );
@@ -388,7 +388,7 @@ pub fn decode_field(
                         requires_cloning = ".clone()".into();
                     }
                     let mut rvalue = format!(
-                        "{}{}",
+                        "({}){}",
                         generate_expression(&type_argument, type_generator, scope),
                         requires_cloning
                     );
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..8e46ae0 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -116,10 +116,11 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
         return true;
     }
     // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // Blobs must be passed by reference as well, because they cannot be copied.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "extern" | "bytes"
+    )
 }
 
 pub fn encode_field(
@@ -240,7 +241,10 @@ pub fn encode_field(
             // the caller.
 
             // Check if casts are needed.
-            let mut rvalue = generate_expression(&type_argument, type_generator, scope);
+            let mut rvalue = format!(
+                "({})",
+                generate_expression(&type_argument, type_generator, scope)
+            );
             if expression_requires_cast(
                 &type_parameter.borrow().zserio_type,
                 type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index ff3cf15..95f164a 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -417,7 +417,7 @@ fn generate_comparison_expression(
 ) -> String {
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_comparison_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -427,10 +427,24 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        generate_comparison_operand(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
 }
 
+fn generate_comparison_operand(
+    operand: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let generated_code = generate_expression(operand, type_generator, scope);
+    match operand.expression_type {
+        // In zserio, relational operators bind stronger than equality operators. Rust has
+        // the same precedence for both, and doesn't allow to chain them.
+        EQ | LE | LT | GT | GE | NE => format!("({})", generated_code),
+        _ => generated_code,
+    }
+}
+
 fn generate_literal_expression(expression: &Expression) -> String {
     let mut float_value = 0.0;
     let mut int_value = 0;
-- 
2.43.0


From 5a1e3d2a16b8c71635d7263473015cfa1ad2c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:52 +0000
Subject: [PATCH 42/67] fix: constants in enum and bitmask values are evaluated
 instead of being zero

---
 .../src/internal/ast/expression.rs            | 24 +++++++++++++++++++
 .../src/internal/ast/zbitmask.rs              |  5 ++++
 .../src/internal/generator/zenum.rs           |  5 ++++
 3 files changed, 34 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index aa96af2..70194b6 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -17,6 +17,7 @@ use std::string::String;
 use zserio::numbits;
 
 use super::type_reference::TypeReference;
+use super::zconst::ZConst;
 use super::zfunction::ZFunction;
 
 #[derive(Clone, PartialEq, Debug)]
@@ -624,6 +625,29 @@ impl Expression {
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
+
+        if let Symbol::Const(z_const) = &symbol_reference.symbol {
+            self.evaluate_constant(&z_const.borrow(), &symbol_reference.package, scope);
+        }
+    }
+
+    /// Uses the value of a constant, for example for enum items and bitmask values.
+    fn evaluate_constant(&mut self, z_const: &ZConst, package: &str, scope: &mut ModelScope) {
+        scope.scope_stack.push(ScopeLocation {
+            package: package.into(),
+            import_symbol: None,
+            symbol_name: Some(z_const.name.clone()),
+        });
+        let mut value_expression = z_const.value_expression.borrow_mut();
+        value_expression.evaluate(scope);
+        scope.scope_stack.pop();
+
+        if let (ExpressionType::Integer(_), ExpressionType::Integer(_)) =
+            (&self.result_type, &value_expression.result_type)
+        {
+            self.result_type.clone_from(&value_expression.result_type);
+            self.fully_resolved = value_expression.fully_resolved;
+        }
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..3604fc4 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -44,6 +44,11 @@ impl ZBitmaskType {
                 let mut value_expression = value_expression_rc.as_ref().borrow_mut();
 
                 value_expression.evaluate(scope);
+                assert!(
+                    value_expression.fully_resolved,
+                    "the value of the bitmask value {} is not a constant",
+                    value.name
+                );
                 let expr_bitmask_value = match value_expression.result_type {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index fc55f33..a6f1cfc 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -42,6 +42,11 @@ pub fn generate_enum(
     let mut first_option = true;
     for item in &zenum.items {
         if let Some(value_expression) = &item.value {
+            assert!(
+                value_expression.borrow().fully_resolved,
+                "the value of the enum item {} is not a constant",
+                item.name
+            );
             match value_expression.as_ref().borrow().result_type {
                 ExpressionType::Integer(v) => enum_value = v,
                 _ => panic!("only integer value expressions are supported"),
-- 
2.43.0


From fe0aa66e43c377eec08576330cfcda8dd9f2800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 43/67] fix: extended fields are rejected instead of being
 written like ordinary fields

---
 crates/zserio-rs-build/src/internal/visitor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 9c5c142..c99abed 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -408,6 +408,11 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             _ => panic!("should not happen"),
         }
 
+        assert!(
+            ctx.EXTEND().is_none(),
+            "extended fields are not supported, but field {} is marked as extended",
+            field.name
+        );
         field.is_optional = ctx.OPTIONAL().is_some();
 
         if let Some(field_alignment_ctx) = ctx.fieldAlignment() {
-- 
2.43.0


From 13765cc63f20a96d3577fac06b8a619332b5f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 44/67] fix: the underlying types of enums and bitmasks are
 resolved

---
 crates/zserio-rs-build/src/internal/model.rs | 22 +++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index bb0af7e..05f69bb 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::package::ZPackage;
 use crate::internal::compiler::resolve_types::{
     resolve_choice_types, resolve_constant, resolve_struct_types, resolve_subtype,
-    resolve_union_types,
+    resolve_type_reference, resolve_union_types,
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
@@ -118,6 +118,26 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
+            for z_enum in &pkg.enums {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_enum.borrow().name.clone()),
+                });
+                resolve_type_reference(&mut z_enum.borrow_mut().enum_type, scope);
+                scope.scope_stack.pop();
+            }
+
+            for bitmask in &pkg.bitmask_types {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(bitmask.borrow().name.clone()),
+                });
+                resolve_type_reference(&mut bitmask.borrow_mut().zserio_type, scope);
+                scope.scope_stack.pop();
+            }
+
             for zconstant in &pkg.consts {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
-- 
2.43.0


From 8f8a8a59b72ea774b4baf8d936dbc55d5570a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 45/67] fix: truncated strings, byte blocks and floats report
 the end of the data

---
 crates/zserio/src/ztype/reader.rs        | 7 +------
 crates/zserio/src/ztype/string_decode.rs | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/crates/zserio/src/ztype/reader.rs b/crates/zserio/src/ztype/reader.rs
index e176353..7272214 100644
--- a/crates/zserio/src/ztype/reader.rs
+++ b/crates/zserio/src/ztype/reader.rs
@@ -1,14 +1,9 @@
-use std::io::ErrorKind;
-
 use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_bytes(reader: &mut BitReader, num_bytes: u32) -> Result<Vec<u8>> {
     if reader.remaining() < (num_bytes as u64 * 8) {
-        return Err(ZserioError::IoError(std::io::Error::new(
-            ErrorKind::UnexpectedEof,
-            "requested byte count is larger than available data",
-        )));
+        return Err(ZserioError::Eof);
     }
     let mut result = vec![0_u8; num_bytes as usize];
     reader.read_u8_slice(&mut result)?;
diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index e35ab45..6a42606 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -1,5 +1,3 @@
-use std::io::ErrorKind;
-
 use bitreader::BitReader;
 
 use crate::error::{Result, ZserioError};
@@ -10,10 +8,7 @@ pub fn read_string(reader: &mut BitReader) -> Result<String> {
     let str_len = read_varsize(reader)? as usize;
 
     if reader.remaining() < (str_len as u64 * 8) {
-        return Err(ZserioError::IoError(std::io::Error::new(
-            ErrorKind::UnexpectedEof,
-            "claimed string size is larger than available data",
-        )));
+        return Err(ZserioError::Eof);
     }
     // create a buffer to store the string
     let mut buffer = vec![0_u8; str_len];
-- 
2.43.0


From 66ab32f2055f1b32da8d892ddf52a215bf897ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 46/67] fix: stop on schema syntax errors

The parser recovers from syntax errors by skipping input and the generator
carried on with what was left, so a misplaced modifier or a malformed field
disappeared from the generated code without notice.
---
 .../src/internal/model/package.rs             | 35 ++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/model/package.rs b/crates/zserio-rs-build/src/internal/model/package.rs
index c0eecb3..5904264 100644
--- a/crates/zserio-rs-build/src/internal/model/package.rs
+++ b/crates/zserio-rs-build/src/internal/model/package.rs
@@ -4,17 +4,50 @@ use crate::internal::parser::gen::zserioparser::ZserioParser;
 use crate::internal::visitor::Visitor;
 use crate::internal::visitor::ZserioTreeReturnType;
 use antlr_rust::common_token_stream::CommonTokenStream;
+use antlr_rust::error_listener::ErrorListener;
+use antlr_rust::errors::ANTLRError;
+use antlr_rust::recognizer::Recognizer;
+use antlr_rust::token_factory::TokenFactory;
 use antlr_rust::tree::ParseTreeVisitorCompat;
 use antlr_rust::InputStream;
+use antlr_rust::Parser;
 use std::path::Path;
 
 use std::fs;
 
+/// Stops at the first syntax error. Without it, the parser recovers by skipping input, and
+/// the skipped part of the schema would be missing in the generated code without any notice.
+struct SyntaxErrorListener {
+    file_name: String,
+}
+
+impl<'a, T: Recognizer<'a>> ErrorListener<'a, T> for SyntaxErrorListener {
+    fn syntax_error(
+        &self,
+        _recognizer: &T,
+        _offending_symbol: Option<&<T::TF as TokenFactory<'a>>::Inner>,
+        line: isize,
+        column: isize,
+        msg: &str,
+        _error: Option<&ANTLRError>,
+    ) {
+        panic!("{}:{}:{}: {}", self.file_name, line, column, msg);
+    }
+}
+
 /// Loads a zserio package from a file.
 pub fn package_from_file(path: &Path) -> ZPackage {
     let contents = fs::read_to_string(path).expect("failed to read file");
-    let lexer = ZserioLexer::new(InputStream::new(&*contents));
+    let mut lexer = ZserioLexer::new(InputStream::new(&*contents));
+    lexer.remove_error_listeners();
+    lexer.add_error_listener(Box::new(SyntaxErrorListener {
+        file_name: path.display().to_string(),
+    }));
     let mut parser = ZserioParser::new(CommonTokenStream::new(lexer));
+    parser.remove_error_listeners();
+    parser.add_error_listener(Box::new(SyntaxErrorListener {
+        file_name: path.display().to_string(),
+    }));
 
     let root = parser.packageDeclaration().unwrap(); //.expect("package declaration failed");
     let x = ZserioTreeReturnType::Str("".into());
-- 
2.43.0


From 3358e84bde6ff2e6050cb0a1a64e9d82f2bde42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:27 +0000
Subject: [PATCH 47/67] fix: a choice without a default case rejects selectors
 that match no case

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index ac5ef46..bb827a6 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -179,7 +179,10 @@ fn generate_choice_match(
         }
         code_gen_fn.line("},");
     } else {
-        code_gen_fn.line("_ => (),");
+        code_gen_fn.line(format!(
+            "_ => return Err(zserio::ZserioError::DataError(\"no case of {} matches the selector\".into())),",
+            TypeGenerator::to_rust_type_name(&zchoice.name)
+        ));
     }
     code_gen_fn.line("}");
 }
-- 
2.43.0


From e6ef8318b7652d1c5ca5ce50d77f4152c2371731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 48/67] fix: widths that do not fit a byte are rejected instead
 of cut

---
 crates/zserio-rs-build/src/internal/generator/array.rs   | 2 +-
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 2 +-
 crates/zserio-rs-build/src/internal/generator/decode.rs  | 6 ++++--
 crates/zserio-rs-build/src/internal/generator/encode.rs  | 6 ++++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index bb35417..e861b04 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -62,7 +62,7 @@ pub fn initialize_array_trait(
         // Initialize the signed/unsigned bitfield array traits
         if let Some(length_expression) = &zserio_type.length_expression {
             code_str += format!(
-                "num_bits: ({}) as u8,\n",
+                "num_bits: u8::try_from({}).unwrap_or(u8::MAX),\n",
                 generate_expression(&length_expression.borrow(), type_generator, scope)
             )
             .as_str();
diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index b76a987..989aca1 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -105,7 +105,7 @@ pub fn bitsize_type_reference(
                 }
                 "int" | "bit" => match &type_reference.length_expression {
                     Some(length_expression) => format!(
-                        "u64::from(({}) as u8)",
+                        "u64::from(u8::try_from({}).unwrap_or(u8::MAX))",
                         generate_expression(&length_expression.borrow(), type_generator, scope)
                     ),
                     None => format!("{} as u64", type_reference.bits),
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index febab5c..747f382 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -81,8 +81,10 @@ pub fn decode_type(
                         // check if there is a typecast needed
                         if let Some(native_type) = &bit_length_expression.borrow().native_type {
                             if native_type.name != "uint8" {
-                                length_expression_string =
-                                    format!("({}) as u8", length_expression_string);
+                                length_expression_string = format!(
+                                    "u8::try_from({}).unwrap_or(u8::MAX)",
+                                    length_expression_string
+                                );
                             }
                         }
                         length_expression_string
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 8e46ae0..58bb85d 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -71,8 +71,10 @@ pub fn encode_type(
                     // check if there is a typecast needed
                     if let Some(native_type) = &bit_length_expression.borrow().native_type {
                         if native_type.name != "uint8" {
-                            length_expression_string =
-                                format!("({}) as u8", length_expression_string);
+                            length_expression_string = format!(
+                                "u8::try_from({}).unwrap_or(u8::MAX)",
+                                length_expression_string
+                            );
                         }
                     }
                     length_expression_string
-- 
2.43.0


From 66b9ce1a6d64c3fa4144306def9afacea182a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 49/67] fix: automatic bitmask values continue above the
 highest bit, explicit values may be lower

---
 .../src/internal/ast/zbitmask.rs              | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 3604fc4..f49a57c 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -2,6 +2,7 @@ use super::type_reference::TypeReference;
 use crate::internal::ast::expression::{Expression, ExpressionType};
 use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, Symbol};
 use std::cell::RefCell;
+use std::collections::HashSet;
 use std::rc::Rc;
 
 #[derive(Debug)]
@@ -37,6 +38,7 @@ impl ZBitmaskType {
     /// Evaluates all expressions within this bitmask type.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         let mut bitmask_value = 1u64;
+        let mut assigned_values = HashSet::new();
         for value in &mut self.values {
             // Check if the bitmask value has a value hard-coded.
             // If yes, use the value from the expression.
@@ -49,23 +51,23 @@ impl ZBitmaskType {
                     "the value of the bitmask value {} is not a constant",
                     value.name
                 );
-                let expr_bitmask_value = match value_expression.result_type {
+                bitmask_value = match value_expression.result_type {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
-                    panic!("expression redefines bitmask value");
-                }
-                bitmask_value = expr_bitmask_value;
             }
+            assert!(
+                assigned_values.insert(bitmask_value),
+                "the bitmask value {} is assigned twice",
+                value.name
+            );
             value.value = bitmask_value;
 
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
-            } else {
-                bitmask_value <<= 1;
-            }
+            // Pick the bit above the highest bit for the next bitmask value.
+            bitmask_value = match bitmask_value.checked_ilog2() {
+                Some(highest_bit) => 2 << highest_bit,
+                None => 1,
+            };
         }
         self.zserio_type.evaluate(scope);
     }
-- 
2.43.0


From 9287fd0fe80ba68582cb9e0b222c07ea379532ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 50/67] fix: generate the operand of a unary plus, which rust
 does not have

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 95f164a..09283d0 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -76,7 +76,7 @@ fn generate_unary_arithmetic_expression(
     format!(
         "{}{}",
         match expression.expression_type {
-            PLUS => "+",
+            PLUS => "", // rust has no unary plus
             MINUS => "-",
             _ => panic!("unexpected unary arithmetic expression operator"),
         },
-- 
2.43.0


From 19226737305e8886f9397b71b18cdac731b81205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 51/67] fix: array element expressions have the element type
 and are indexed with usize

---
 crates/zserio-rs-build/src/internal/ast/expression.rs    | 9 ++++-----
 .../zserio-rs-build/src/internal/generator/expression.rs | 3 ++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 70194b6..aaf50e4 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -163,11 +163,10 @@ impl Expression {
     fn evaluate_array_element(&mut self, _scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => {
-                match &op1.result_type {
-                    ExpressionType::Compound => {}
-                    ExpressionType::Integer(_) => {} // for @index expressions in offset
-                    _ => panic!("unexpected array expression index type"),
-                }
+                // The expression of the array has the type of the array elements.
+                self.result_type.clone_from(&op1.result_type);
+                self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
             }
             _ => panic!("array element requires an operand to be set"),
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 09283d0..38b0261 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -170,8 +170,9 @@ fn generate_bracketed_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    // Rust only allows usize indices.
     format!(
-        "{}[{}]",
+        "{}[({}) as usize]",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
-- 
2.43.0


From 8d980a50379f6d4d4cae5e60119bb1af3b48a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 52/67] fix: an operand of higher rank keeps its sign in mixed
 arithmetic

---
 .../ast/evaluate_mixing_native_types.rs       | 49 +++++--------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index 4ca2d84..d0a674e 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -85,21 +85,6 @@ pub fn is_signed(int_type_name: &str) -> bool {
     }
 }
 
-pub fn convert_to_unsigned(int_type_name: &str) -> String {
-    match int_type_name {
-        "int8" => "uint8".into(),
-        "int16" => "uint16".into(),
-        "int32" => "uint32".into(),
-        "int64" => "uint64".into(),
-        "int" => "bit".into(),
-        "varint16" => "varuint16".into(),
-        "varint32" => "varuint32".into(),
-        "varint64" => "varuint64".into(),
-        "varint" => "varuint".into(),
-        _ => panic!("unexpected signed integer type {:?}", int_type_name),
-    }
-}
-
 pub fn evaluate_mixing_integer_types(
     type1: &Option<TypeReference>,
     type2: &Option<TypeReference>,
@@ -115,34 +100,24 @@ pub fn evaluate_mixing_integer_types(
                 return type1.clone();
             }
 
-            // Check if there is a mix in signed/unsigned. If yes, the final
-            // type will be a unsigned type (like C++, unsigned wins).
-            let t1_is_signed = is_signed(t1.name.as_str());
-            let t2_is_signed = is_signed(t2.name.as_str());
-            let result_is_signed = t1_is_signed && t2_is_signed;
-
-            // Pick the higher rank.
+            // Pick the higher rank, keeping its sign.
             let t1_rank = get_integer_rank(t1);
             let t2_rank = get_integer_rank(t2);
-
             if t1_rank > t2_rank {
-                if t1_is_signed == result_is_signed {
-                    // type 1 wins
-                    return Some(t1.clone());
-                }
-                // t1 rank wins, but t2 sign wins
-                let mut result_type = t1.clone();
-                result_type.name = convert_to_unsigned(result_type.name.as_str());
-                return Some(result_type);
+                return Some(t1.clone());
             }
-            if t2_is_signed == result_is_signed {
-                // type 2 wins
+            if t2_rank > t1_rank {
+                return Some(t2.clone());
+            }
+
+            // Check if there is a mix in signed/unsigned. If yes, the final
+            // type will be a unsigned type (like C++, unsigned wins).
+            let t1_is_signed = is_signed(t1.name.as_str());
+            let t2_is_signed = is_signed(t2.name.as_str());
+            if t1_is_signed && !t2_is_signed {
                 return Some(t2.clone());
             }
-            // t2 rank wins, but t1 sign wins
-            let mut result_type = t2.clone();
-            result_type.name = convert_to_unsigned(result_type.name.as_str());
-            Some(result_type)
+            Some(t1.clone())
         }
         // Handle cases such as "u16Var + 12"
         (Some(_), None) => type1.clone(),
-- 
2.43.0


From 857137fe92fa0a57ed0fdd81ebc625b108ddae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 53/67] fix: ternary and bitwise expressions have the type of
 both operands, and are not resolved by a placeholder condition

---
 .../src/internal/ast/expression.rs            | 29 ++++++-----
 .../src/internal/generator/expression.rs      | 48 +++++++++++++++++--
 2 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index aaf50e4..733f594 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -554,6 +554,10 @@ impl Expression {
                         _ => panic!("unexpected bitwise expression"),
                     };
                     self.result_type = ExpressionType::Integer(result);
+                    self.native_type = match self.expression_type {
+                        LSHIFT | RSHIFT => op1.native_type.clone(),
+                        _ => evaluate_mixing_integer_types(&op1.native_type, &op2.native_type),
+                    };
                 }
                 (ExpressionType::BitMask(_), ExpressionType::Integer(_))
                 | (ExpressionType::Integer(_), ExpressionType::BitMask(_))
@@ -591,17 +595,20 @@ impl Expression {
     fn evaluate_ternary_expression(&mut self) {
         match self.operand1.as_ref().unwrap().result_type {
             ExpressionType::Bool(condition) => {
-                if condition {
-                    let op2 = self.operand2.as_ref().unwrap();
-                    self.result_type.clone_from(&op2.result_type);
-                    self.symbol.clone_from(&op2.symbol);
-                    self.fully_resolved = op2.fully_resolved;
-                } else {
-                    let op3 = self.operand3.as_ref().unwrap();
-                    self.result_type.clone_from(&op3.result_type);
-                    self.symbol.clone_from(&op3.symbol);
-                    self.fully_resolved = op3.fully_resolved;
-                }
+                let op2 = self.operand2.as_ref().unwrap();
+                let op3 = self.operand3.as_ref().unwrap();
+                let selected = if condition { op2 } else { op3 };
+                self.result_type.clone_from(&selected.result_type);
+                self.symbol.clone_from(&selected.symbol);
+                self.native_type = match (&op2.result_type, &op3.result_type) {
+                    (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+                        evaluate_mixing_integer_types(&op2.native_type, &op3.native_type)
+                    }
+                    (ExpressionType::Float(_), ExpressionType::Float(_)) => {
+                        evaluate_mixing_float_types(&op2.native_type, &op3.native_type)
+                    }
+                    _ => selected.native_type.clone(),
+                };
             }
             _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 38b0261..97bae02 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -3,6 +3,7 @@ use crate::internal::ast::expression::{
 };
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::generator::casts::requires_cast;
 use crate::internal::generator::types::{convert_to_enum_field_name, TypeGenerator};
 use crate::internal::parser::gen::zserioparser::{
     AND, BANG, BINARY_LITERAL, BOOL_LITERAL, DECIMAL_LITERAL, DIVIDE, DOT, DOUBLE_LITERAL, EQ,
@@ -346,11 +347,44 @@ if {} {{
     {}
 }}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+        generate_cast_operand(
+            expression,
+            expression.operand2.as_ref().unwrap(),
+            type_generator,
+            scope
+        ),
+        generate_cast_operand(
+            expression,
+            expression.operand3.as_ref().unwrap(),
+            type_generator,
+            scope
+        ),
     )
 }
 
+/// Generates the operand of an expression, and casts it to the type of the expression if both
+/// have different native types.
+fn generate_cast_operand(
+    expression: &Expression,
+    operand: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let generated_code = generate_expression(operand, type_generator, scope);
+    if let (Some(native_type), Some(operand_native_type)) =
+        (&expression.native_type, &operand.native_type)
+    {
+        if requires_cast(native_type, operand_native_type, type_generator) {
+            return format!(
+                "(({}) as {})",
+                generated_code,
+                type_generator.ztype_to_rust_type(native_type)
+            );
+        }
+    }
+    generated_code
+}
+
 fn generate_logical_negation(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -379,9 +413,11 @@ fn generate_bitwise_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let op1 = expression.operand1.as_ref().unwrap();
+    let op2 = expression.operand2.as_ref().unwrap();
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_cast_operand(expression, op1, type_generator, scope),
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -390,7 +426,11 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        match expression.expression_type {
+            // the type of the shift count doesn't matter
+            LSHIFT | RSHIFT => generate_expression(op2, type_generator, scope),
+            _ => generate_cast_operand(expression, op2, type_generator, scope),
+        },
     )
 }
 
-- 
2.43.0


From c87139c3eaaa1928ac57b8e1585858de2ffcd14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 54/67] fix: compare numbers of different types in a common
 type

---
 .../src/internal/generator/expression.rs      | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 97bae02..a274558 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -456,9 +456,32 @@ fn generate_comparison_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let op1 = expression.operand1.as_ref().unwrap();
+    let op2 = expression.operand2.as_ref().unwrap();
+    let mut op1_string = generate_comparison_operand(op1, type_generator, scope);
+    let mut op2_string = generate_comparison_operand(op2, type_generator, scope);
+
+    // Rust can only compare numbers of the same type. Use one that holds the values of both.
+    let common_type = match (&op1.result_type, &op2.result_type) {
+        (ExpressionType::Integer(_), ExpressionType::Integer(_)) => Some("i128"),
+        (ExpressionType::Float(_), ExpressionType::Float(_)) => Some("f64"),
+        _ => None,
+    };
+    if let (Some(common_type), Some(op1_native_type), Some(op2_native_type)) =
+        (common_type, &op1.native_type, &op2.native_type)
+    {
+        if requires_cast(
+            &get_fundamental_type(op1_native_type, scope).fundamental_type,
+            &get_fundamental_type(op2_native_type, scope).fundamental_type,
+            type_generator,
+        ) {
+            op1_string = format!("(({}) as {})", op1_string, common_type);
+            op2_string = format!("(({}) as {})", op2_string, common_type);
+        }
+    }
     format!(
         "{} {} {}",
-        generate_comparison_operand(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        op1_string,
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -468,7 +491,7 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_comparison_operand(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        op2_string,
     )
 }
 
-- 
2.43.0


From 10c9b38cfeef5b6bda256fa5b72b5f3b2663c6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 55/67] fix: evaluate constants of type bool

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 733f594..89a8392 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -648,7 +648,8 @@ impl Expression {
         value_expression.evaluate(scope);
         scope.scope_stack.pop();
 
-        if let (ExpressionType::Integer(_), ExpressionType::Integer(_)) =
+        if let (ExpressionType::Integer(_), ExpressionType::Integer(_))
+        | (ExpressionType::Bool(_), ExpressionType::Bool(_)) =
             (&self.result_type, &value_expression.result_type)
         {
             self.result_type.clone_from(&value_expression.result_type);
-- 
2.43.0


From 7396f70e85db98b736d6ddf412cd90e674084508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:52 +0000
Subject: [PATCH 56/67] fix: string functions return a String, and string
 constants the evaluated text

---
 crates/zserio-rs-build/src/internal/generator/function.rs | 8 +++-----
 crates/zserio-rs-build/src/internal/generator/zconst.rs   | 8 ++++++++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index c4887f2..a4b7d0d 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -24,12 +24,10 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
+    if zserio_function.return_type.is_builtin && zserio_function.return_type.name == "string" {
+        // The result may be a string of the object, or a (constant) string slice.
         fn_gen_scope.line(format!(
-            "{}.clone()",
+            "({}).to_string()",
             generate_expression(
                 &zserio_function.result.as_ref().borrow(),
                 type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index f445e7d..3de9b97 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
@@ -51,6 +52,13 @@ pub fn generate_constant(
         value = format!("({}) as {}", value, field_type);
     }
 
+    // String operations can not be evaluated in a rust constant.
+    if let (ExpressionType::String(text), true) =
+        (&value_expression.result_type, value_expression.fully_resolved)
+    {
+        value = format!("\"{}\"", text);
+    }
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
-- 
2.43.0


From c86d5cea5b94621b8b661a645bced54769ef547d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 57/67] fix: constants can be used as choice labels

---
 .../src/internal/ast/zchoice.rs               | 95 +++++++++++--------
 .../src/internal/generator/zchoice.rs         | 13 +--
 2 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zchoice.rs b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
index d74e0ef..6175bda 100644
--- a/crates/zserio-rs-build/src/internal/ast/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
@@ -91,53 +91,64 @@ impl ZChoice {
             return;
         }
 
+        // Constants can also be used as labels, so only the items of the enumeration
+        // (or bitmask) get the prefix.
+        let selector_expression = self.selector_expression.as_ref().borrow();
+        let (mut type_name, items): (String, Vec<String>) = match &selector_expression.result_type {
+            ExpressionType::Enum(z_enum) => {
+                let z_enum = z_enum.as_ref().borrow();
+                let items = z_enum.items.iter().map(|item| item.name.clone());
+                (z_enum.name.clone(), items.collect())
+            }
+            ExpressionType::BitMask(z_bitmask) => {
+                let z_bitmask = z_bitmask.as_ref().borrow();
+                let items = z_bitmask.values.iter().map(|value| value.name.clone());
+                (z_bitmask.name.clone(), items.collect())
+            }
+            _ => return,
+        };
+        if let Some(selector_symbol) = &selector_expression.symbol {
+            if let Symbol::Parameter(p) = &selector_symbol.symbol {
+                type_name = p.as_ref().borrow().zserio_type.name.clone();
+            }
+        }
+
         for case in &mut self.cases {
             for condition in &mut case.conditions.iter_mut() {
                 let mut dot_expression = None;
                 {
                     let condition_expression = condition.as_ref().borrow();
-                    if condition_expression.expression_type == ID {
-                        match &self
-                            .selector_expression
-                            .as_ref()
-                            .borrow()
-                            .symbol
-                            .as_ref()
-                            .unwrap()
-                            .symbol
-                        {
-                            Symbol::Parameter(p) => {
-                                let mut operand2 = Box::from(condition_expression.clone());
-                                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
-
-                                dot_expression = Option::from(Expression {
-                                    expression_type: DOT,
-                                    flag: ExpressionFlag::None,
-                                    operand1: Option::from(Box::new(Expression {
-                                        expression_type: ID,
-                                        text: p.as_ref().borrow().zserio_type.name.clone(),
-                                        flag: ExpressionFlag::None,
-                                        operand1: None,
-                                        operand2: None,
-                                        operand3: None,
-                                        result_type: ExpressionType::Other,
-                                        symbol: None,
-                                        fully_resolved: false,
-                                        evaluation_state: EvaluationState::NotEvaluated,
-                                        native_type: None,
-                                    })),
-                                    operand2: Option::from(operand2),
-                                    operand3: None,
-                                    text: "".into(),
-                                    result_type: ExpressionType::Other,
-                                    symbol: None,
-                                    fully_resolved: false,
-                                    evaluation_state: EvaluationState::NotEvaluated,
-                                    native_type: None,
-                                });
-                            }
-                            _ => panic!("selector expression is not a parameter"),
-                        }
+                    if condition_expression.expression_type == ID
+                        && items.contains(&condition_expression.text)
+                    {
+                        let mut operand2 = Box::from(condition_expression.clone());
+                        operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
+
+                        dot_expression = Option::from(Expression {
+                            expression_type: DOT,
+                            flag: ExpressionFlag::None,
+                            operand1: Option::from(Box::new(Expression {
+                                expression_type: ID,
+                                text: type_name.clone(),
+                                flag: ExpressionFlag::None,
+                                operand1: None,
+                                operand2: None,
+                                operand3: None,
+                                result_type: ExpressionType::Other,
+                                symbol: None,
+                                fully_resolved: false,
+                                evaluation_state: EvaluationState::NotEvaluated,
+                                native_type: None,
+                            })),
+                            operand2: Option::from(operand2),
+                            operand3: None,
+                            text: "".into(),
+                            result_type: ExpressionType::Other,
+                            symbol: None,
+                            fully_resolved: false,
+                            evaluation_state: EvaluationState::NotEvaluated,
+                            native_type: None,
+                        });
                     }
                 }
                 if let Some(new_dot_expression) = dot_expression {
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index bb827a6..c40e3be 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -2,7 +2,7 @@
 
 use codegen::{Function, Scope};
 
-use crate::internal::ast::zchoice::ZChoice;
+use crate::internal::ast::{expression::ExpressionType, zchoice::ZChoice};
 
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
@@ -153,11 +153,12 @@ fn generate_choice_match(
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
         for case_expr in &case.conditions {
-            case_expressions.push(generate_expression(
-                &case_expr.as_ref().borrow(),
-                type_generator,
-                symbol_scope,
-            ));
+            let case_expr = case_expr.as_ref().borrow();
+            // Rust patterns can not contain operators.
+            case_expressions.push(match (&case_expr.result_type, case_expr.fully_resolved) {
+                (ExpressionType::Integer(value), true) => value.to_string(),
+                _ => generate_expression(&case_expr, type_generator, symbol_scope),
+            });
         }
         let selector_expression_evaluation = case_expressions.join(" | ");
 
-- 
2.43.0


From f8318f53542cc7cf6f16ef82fd9e899b1f754fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 58/67] fix: enum values above the range of a rust discriminant
 keep their bit pattern

---
 crates/zserio-rs-build/src/internal/generator/zenum.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index a6f1cfc..4f7bbd7 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -55,7 +55,7 @@ pub fn generate_enum(
         let v = gen_enum.new_variant(format!(
             "{} = {}",
             convert_to_enum_field_name(&item.name),
-            enum_value
+            to_discriminant(enum_value)
         ));
         if first_option {
             v.annotation("#[default]");
@@ -83,7 +83,7 @@ pub fn generate_enum(
         }
         from_int_fn.line(format!(
             "{} => Ok({}::{}),",
-            enum_value,
+            to_discriminant(enum_value),
             rust_type_name,
             convert_to_enum_field_name(&item.name)
         ));
@@ -129,6 +129,12 @@ pub fn generate_enum(
     rust_module_name
 }
 
+/// Discriminants of rust enums are signed. Values that only fit into 64 unsigned bits keep their
+/// bit pattern, so that casts between the enum and its type give back the value.
+fn to_discriminant(enum_value: i128) -> i64 {
+    enum_value as i64
+}
+
 fn generate_zserio_read(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
-- 
2.43.0


From 154cb20c116f9e470769b5856949b88cab6c8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 59/67] fix: find the functions of unions in expressions

---
 crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 3fd4bba..b6c9a7e 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -258,6 +258,7 @@ fn get_symbol_name(symbol: &Symbol) -> String {
     match symbol {
         Symbol::Struct(s) => s.as_ref().borrow().name.clone(),
         Symbol::Choice(c) => c.as_ref().borrow().name.clone(),
+        Symbol::Union(u) => u.as_ref().borrow().name.clone(),
         Symbol::Subtype(s) => s.as_ref().borrow().name.clone(),
         Symbol::Enum(e) => e.as_ref().borrow().name.clone(),
         Symbol::Bitmask(bitmask) => bitmask.as_ref().borrow().name.clone(),
-- 
2.43.0


From 106ab850ea1da73a256e9e31f915dfec65b445c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 60/67] fix: functions can return blobs and subtypes of strings

---
 crates/zserio-rs-build/src/internal/ast/expression.rs    | 6 ++++++
 .../zserio-rs-build/src/internal/generator/function.rs   | 9 ++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 89a8392..e379ede 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -725,6 +725,12 @@ fn type_reference_to_expression_type(
                 ExpressionType::Integer(0),
                 Some(TypeReference::new_native_type(type_ref.name.as_str())),
             )
+        } else if type_ref.name == "bytes" || type_ref.name == "extern" {
+            // There are no operations on blobs.
+            (
+                ExpressionType::Other,
+                Some(TypeReference::new_native_type(type_ref.name.as_str())),
+            )
         } else {
             panic!("failed to determine builtin type reference type");
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index a4b7d0d..c6da004 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -24,7 +24,10 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin && zserio_function.return_type.name == "string" {
+    if matches!(
+        zserio_function.result.as_ref().borrow().result_type,
+        ExpressionType::String(_)
+    ) {
         // The result may be a string of the object, or a (constant) string slice.
         fn_gen_scope.line(format!(
             "({}).to_string()",
@@ -36,9 +39,9 @@ pub fn generate_function(
         ));
     } else if matches!(
         zserio_function.result.as_ref().borrow().result_type,
-        ExpressionType::Compound
+        ExpressionType::Compound | ExpressionType::Other
     ) {
-        // Compound types cannot be moved out of the object.
+        // Compound types and blobs cannot be moved out of the object.
         fn_gen_scope.line(format!(
             "({}).clone()",
             generate_expression(
-- 
2.43.0


From c743d34f53bbcfe10079a837d8559914e8e53078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 61/67] fix: ternary expressions of strings and compounds, and
 string constants made of constants

---
 .../src/internal/ast/expression.rs            |  3 ++-
 .../src/internal/generator/expression.rs      | 25 ++++++++++---------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index e379ede..401ecfa 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -649,7 +649,8 @@ impl Expression {
         scope.scope_stack.pop();
 
         if let (ExpressionType::Integer(_), ExpressionType::Integer(_))
-        | (ExpressionType::Bool(_), ExpressionType::Bool(_)) =
+        | (ExpressionType::Bool(_), ExpressionType::Bool(_))
+        | (ExpressionType::String(_), ExpressionType::String(_)) =
             (&self.result_type, &value_expression.result_type)
         {
             self.result_type.clone_from(&value_expression.result_type);
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index a274558..438c74f 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -339,6 +339,17 @@ fn generate_ternary_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let mut branches = vec![];
+    for operand in [&expression.operand2, &expression.operand3] {
+        let branch =
+            generate_cast_operand(expression, operand.as_ref().unwrap(), type_generator, scope);
+        // Strings and compound types cannot be moved out of the object.
+        branches.push(match expression.result_type {
+            ExpressionType::String(_) => format!("({}).to_string()", branch),
+            ExpressionType::Compound | ExpressionType::Other => format!("({}).clone()", branch),
+            _ => branch,
+        });
+    }
     format!(
         "
 if {} {{
@@ -347,18 +358,8 @@ if {} {{
     {}
 }}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_cast_operand(
-            expression,
-            expression.operand2.as_ref().unwrap(),
-            type_generator,
-            scope
-        ),
-        generate_cast_operand(
-            expression,
-            expression.operand3.as_ref().unwrap(),
-            type_generator,
-            scope
-        ),
+        branches[0],
+        branches[1],
     )
 }
 
-- 
2.43.0


From c21fd98447e0aa785e9fe64203548ced66992980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:28 +0000
Subject: [PATCH 62/67] fix: keep packages and types in sorted maps, so that
 the generated code is the same in every run

The order of HashMap decided which of two template instantiations with the same name is generated.
---
 crates/zserio-rs-build/src/internal/ast/package.rs        | 8 ++++----
 .../zserio-rs-build/src/internal/compiler/symbol_scope.rs | 4 ++--
 crates/zserio-rs-build/src/internal/generator/mod_file.rs | 8 ++++----
 crates/zserio-rs-build/src/internal/model.rs              | 6 +++---
 crates/zserio-rs-build/src/internal/visitor.rs            | 8 ++++----
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/package.rs b/crates/zserio-rs-build/src/internal/ast/package.rs
index 048451f..b909592 100644
--- a/crates/zserio-rs-build/src/internal/ast/package.rs
+++ b/crates/zserio-rs-build/src/internal/ast/package.rs
@@ -1,6 +1,6 @@
 use crate::internal::ast::{zenum::ZEnum, zstruct::ZStruct};
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::rc::Rc;
 use std::string::String;
 
@@ -21,9 +21,9 @@ pub struct ZPackage {
     pub comment: String,
 
     pub imports: Vec<ZImport>,
-    pub structs: HashMap<String, Rc<RefCell<ZStruct>>>,
-    pub zchoices: HashMap<String, Rc<RefCell<ZChoice>>>,
-    pub zunions: HashMap<String, Rc<RefCell<ZUnion>>>,
+    pub structs: BTreeMap<String, Rc<RefCell<ZStruct>>>,
+    pub zchoices: BTreeMap<String, Rc<RefCell<ZChoice>>>,
+    pub zunions: BTreeMap<String, Rc<RefCell<ZUnion>>>,
     pub enums: Vec<Rc<RefCell<ZEnum>>>,
     pub consts: Vec<Rc<RefCell<ZConst>>>,
     pub subtypes: Vec<Rc<RefCell<Subtype>>>,
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index b6c9a7e..aaff744 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -16,7 +16,7 @@ use crate::internal::ast::{
 };
 
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::rc::Rc;
 
 /// This enum is used to cover any possible type of symbols.
@@ -75,7 +75,7 @@ pub struct ModelScope {
 }
 
 impl ModelScope {
-    pub fn build_scope(packages: &HashMap<String, ZPackage>) -> Self {
+    pub fn build_scope(packages: &BTreeMap<String, ZPackage>) -> Self {
         let mut scope = ModelScope {
             package_scopes: HashMap::new(),
             scope_stack: vec![],
diff --git a/crates/zserio-rs-build/src/internal/generator/mod_file.rs b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
index 230bf37..e10fc42 100644
--- a/crates/zserio-rs-build/src/internal/generator/mod_file.rs
+++ b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
@@ -3,12 +3,12 @@ use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
 use itertools::Itertools;
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::path::Path;
 use std::rc::Rc;
 
 struct ZserioModuleTreeNode {
-    children: HashMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
+    children: BTreeMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
 }
 
 fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name: &str) {
@@ -31,7 +31,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
         current_node.borrow_mut().children.insert(
             rust_module_name.clone(),
             Rc::from(RefCell::from(ZserioModuleTreeNode {
-                children: HashMap::new(),
+                children: BTreeMap::new(),
             })),
         );
         let new_node = current_node
@@ -84,7 +84,7 @@ fn generate_mod_section(
 pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
     // Reorganize the packages into a tree structure, categorized by module.
     let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
-        children: HashMap::new(),
+        children: BTreeMap::new(),
     }));
 
     for package in model.packages.values() {
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 05f69bb..a8b1717 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -5,7 +5,7 @@ use crate::internal::compiler::resolve_types::{
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::path::Path;
 use walkdir::WalkDir;
 
@@ -19,7 +19,7 @@ use crate::internal::compiler::template_instantiation::{
 /// A data structure containing all zserio files related to each other.
 pub struct Model {
     /// All zserio packages.
-    pub packages: HashMap<String, ZPackage>,
+    pub packages: BTreeMap<String, ZPackage>,
 
     /// An auto-generated symbol scope, which registers the paths of each
     /// symbol within `packages`.
@@ -31,7 +31,7 @@ impl Model {
     /// It iterates over a directory, and parses all `*.zs` files,
     /// and loads them into a `Model` structure.
     pub fn from_filesystem(directory: &Path) -> Self {
-        let mut packages = HashMap::new();
+        let mut packages = BTreeMap::new();
 
         for entry in WalkDir::new(directory) {
             let path = entry.unwrap().into_path();
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index c99abed..7f5ca2e 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -8,7 +8,7 @@ use crate::internal::ast::{
     zsubtype::Subtype, zunion::ZUnion,
 };
 use crate::internal::parser::gen::zserioparservisitor::ZserioParserVisitorCompat;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::internal::ast::{
     expression::{EvaluationState, Expression, ExpressionFlag, ExpressionType},
@@ -165,9 +165,9 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             name: package_name,
             comment: "".into(),
             imports,
-            structs: HashMap::new(),
-            zchoices: HashMap::new(),
-            zunions: HashMap::new(),
+            structs: BTreeMap::new(),
+            zchoices: BTreeMap::new(),
+            zunions: BTreeMap::new(),
             enums: vec![],
             consts: vec![],
             subtypes: vec![],
-- 
2.43.0


From 7db71c85ac6e007095cd5f8f992af37ad536343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:57 +0000
Subject: [PATCH 63/67] fix: declare packages nested below another package in
 the mod file of the outer one, which made the types of the outer package
 unreachable

---
 .../src/internal/generator/mod_file.rs        | 49 +++++++++++++++----
 .../src/internal/generator/model.rs           | 13 ++++-
 .../src/internal/generator/package.rs         |  4 ++
 3 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/mod_file.rs b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
index e10fc42..e6e71e6 100644
--- a/crates/zserio-rs-build/src/internal/generator/mod_file.rs
+++ b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::package::ZPackage;
 use crate::internal::generator::file_generator::write_to_file;
 use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
@@ -8,6 +9,8 @@ use std::path::Path;
 use std::rc::Rc;
 
 struct ZserioModuleTreeNode {
+    /// Set if there is a package with this name, which has a mod file of its own.
+    is_package: bool,
     children: BTreeMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
 }
 
@@ -31,6 +34,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
         current_node.borrow_mut().children.insert(
             rust_module_name.clone(),
             Rc::from(RefCell::from(ZserioModuleTreeNode {
+                is_package: false,
                 children: BTreeMap::new(),
             })),
         );
@@ -42,6 +46,19 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
             .clone();
         current_node = new_node;
     }
+    current_node.borrow_mut().is_package = true;
+}
+
+/// Reorganizes the packages into a tree structure, categorized by module.
+fn build_package_tree(packages: &BTreeMap<String, ZPackage>) -> Rc<RefCell<ZserioModuleTreeNode>> {
+    let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
+        is_package: false,
+        children: BTreeMap::new(),
+    }));
+    for package in packages.values() {
+        add_package_to_tree(&module_tree_root, &package.name);
+    }
+    module_tree_root
 }
 
 fn generate_mod_section(
@@ -57,7 +74,8 @@ fn generate_mod_section(
             *file_content += "#[rustfmt::skip]\n";
         }
 
-        if module_tree_node.borrow().children.is_empty() {
+        // A package declares the packages nested below it in its own mod file.
+        if module_tree_node.borrow().is_package || module_tree_node.borrow().children.is_empty() {
             *file_content += format!("pub mod {};\n", mod_name).as_str();
             return;
         }
@@ -79,17 +97,30 @@ fn generate_mod_section(
     }
 }
 
+/// Generates the module declarations of the packages nested below a package. They are part
+/// of the mod file of the outer package.
+pub fn generate_nested_package_modules(
+    packages: &BTreeMap<String, ZPackage>,
+    package_name: &str,
+) -> String {
+    let mut current_node = build_package_tree(packages);
+    for module_path in package_name.split('.') {
+        let rust_module_name = TypeGenerator::to_rust_module_name(module_path);
+        let child_node = current_node.borrow().children[&rust_module_name].clone();
+        current_node = child_node;
+    }
+
+    let mut file_content = String::from("");
+    for (child_name, child_node) in &current_node.borrow().children {
+        generate_mod_section(&mut file_content, child_name, child_node, 1);
+    }
+    file_content
+}
+
 /// This function generates the top-level mod file, which adds all generated packages
 /// to the known packages.
 pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
-    // Reorganize the packages into a tree structure, categorized by module.
-    let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
-        children: BTreeMap::new(),
-    }));
-
-    for package in model.packages.values() {
-        add_package_to_tree(&module_tree_root, &package.name);
-    }
+    let module_tree_root = build_package_tree(&model.packages);
 
     // Generate the mod.rs file content.
     let mut mod_file_content = String::from("");
diff --git a/crates/zserio-rs-build/src/internal/generator/model.rs b/crates/zserio-rs-build/src/internal/generator/model.rs
index 29a612b..9f47a14 100644
--- a/crates/zserio-rs-build/src/internal/generator/model.rs
+++ b/crates/zserio-rs-build/src/internal/generator/model.rs
@@ -1,4 +1,6 @@
-use crate::internal::generator::mod_file::generate_top_level_mod_file;
+use crate::internal::generator::mod_file::{
+    generate_nested_package_modules, generate_top_level_mod_file,
+};
 use crate::internal::generator::package::generate_package;
 use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
@@ -12,7 +14,14 @@ pub fn generate_model(model: &mut Model, package_directory: &Path, root_package:
     // Generate the rust interface files for all packages.
     for package in model.packages.values() {
         info!("generating rust code for package {0}...", package.name);
-        generate_package(&mut type_generator, scope, package, package_directory);
+        let nested_modules = generate_nested_package_modules(&model.packages, &package.name);
+        generate_package(
+            &mut type_generator,
+            scope,
+            package,
+            &nested_modules,
+            package_directory,
+        );
     }
 
     // Generate the overall mod file.
diff --git a/crates/zserio-rs-build/src/internal/generator/package.rs b/crates/zserio-rs-build/src/internal/generator/package.rs
index 8fa410a..3a2cf2b 100644
--- a/crates/zserio-rs-build/src/internal/generator/package.rs
+++ b/crates/zserio-rs-build/src/internal/generator/package.rs
@@ -13,6 +13,7 @@ pub fn generate_package(
     type_generator: &mut TypeGenerator,
     symbol_scope: &ModelScope,
     package: &ZPackage,
+    nested_package_modules: &str,
     package_directory: &Path,
 ) {
     let package_name = &package.name;
@@ -170,5 +171,8 @@ pub fn generate_package(
         mod_file_content += format!("pub use {module_name}::*;\n").as_str();
     }
 
+    // The packages nested below this one.
+    mod_file_content += nested_package_modules;
+
     write_to_file(&mod_file_content, package_directory, package_name, "mod");
 }
-- 
2.43.0


From 668897ba3cf36135c7b6a070023831b9396783ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 64/67] fix: reject packages, structures, choices and unions
 declared twice instead of dropping the first declaration

---
 crates/zserio-rs-build/src/internal/model.rs  |  6 ++++-
 .../zserio-rs-build/src/internal/visitor.rs   | 27 +++++++++++++++----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index a8b1717..773b534 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -42,7 +42,11 @@ impl Model {
             file_name = file_name.to_ascii_lowercase();
             if file_name.ends_with(".zs") || file_name.ends_with(".zserio") {
                 let package = package_from_file(&path);
-                packages.insert(package.name.clone(), package);
+                let name = package.name.clone();
+                assert!(
+                    packages.insert(name.clone(), package).is_none(),
+                    "package {name} is declared by more than one file"
+                );
             }
         }
         Model {
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 7f5ca2e..84ba35f 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -183,11 +183,23 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                         match ve {
                             ZserioTreeReturnType::Structure(s) => {
                                 let name = s.name.clone();
-                                package.structs.insert(name, Rc::new(RefCell::new(*s)));
+                                let previous = package
+                                    .structs
+                                    .insert(name.clone(), Rc::new(RefCell::new(*s)));
+                                assert!(
+                                    previous.is_none(),
+                                    "structure {name} is declared more than once"
+                                );
                             }
                             ZserioTreeReturnType::Choice(c) => {
                                 let name = c.name.clone();
-                                package.zchoices.insert(name, Rc::new(RefCell::new(*c)));
+                                let previous = package
+                                    .zchoices
+                                    .insert(name.clone(), Rc::new(RefCell::new(*c)));
+                                assert!(
+                                    previous.is_none(),
+                                    "choice {name} is declared more than once"
+                                );
                             }
                             ZserioTreeReturnType::Enumeration(e) => {
                                 package.enums.push(Rc::new(RefCell::new(*e)))
@@ -197,7 +209,13 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                             }
                             ZserioTreeReturnType::Union(u) => {
                                 let name = u.name.clone();
-                                package.zunions.insert(name, Rc::new(RefCell::new(*u)));
+                                let previous = package
+                                    .zunions
+                                    .insert(name.clone(), Rc::new(RefCell::new(*u)));
+                                assert!(
+                                    previous.is_none(),
+                                    "union {name} is declared more than once"
+                                );
                             }
                             ZserioTreeReturnType::Subtype(s) => {
                                 package.subtypes.push(Rc::new(RefCell::new(*s)))
@@ -964,8 +982,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i128::from_str_radix(&literal_text[2..], 16)
-                    .expect("Not a hex number!"),
+                i128::from_str_radix(&literal_text[2..], 16).expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
                 i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
-- 
2.43.0


From ea500a9e5c745bcedebfdc1abf5077574af719b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:46 +0000
Subject: [PATCH 65/67] fix: report initializers, constraints and removed enum
 items, which the generated code does not know about

---
 .../zserio-rs-build/src/internal/visitor.rs   | 32 ++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 84ba35f..6b98872 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -454,6 +454,10 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         if let Some(field_initializer_ctx) = ctx.fieldInitializer() {
             match ZserioParserVisitorCompat::visit_fieldInitializer(self, &field_initializer_ctx) {
                 ZserioTreeReturnType::Expression(expr) => {
+                    warn!(
+                        "field {}: the initializer is not part of the generated code",
+                        field.name
+                    );
                     field.initializer = Option::from(Rc::from(RefCell::from(*expr)));
                 }
                 _ => panic!("unexpected field initializer type"),
@@ -475,6 +479,10 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         if let Some(field_constraint_ctx) = ctx.fieldConstraint() {
             match ZserioParserVisitorCompat::visit_fieldConstraint(self, &field_constraint_ctx) {
                 ZserioTreeReturnType::Expression(expr) => {
+                    warn!(
+                        "field {}: the constraint is not checked by the generated code",
+                        field.name
+                    );
                     field.constraint = Option::from(Rc::from(RefCell::from(*expr)))
                 }
                 _ => panic!("unexpected field constraint type"),
@@ -534,7 +542,23 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
         &mut self,
         ctx: &ChoiceFieldDefinitionContext<'_>,
     ) -> Self::Return {
-        self.visit_fieldTypeId(&ctx.fieldTypeId().unwrap())
+        let mut field = match self.visit_fieldTypeId(&ctx.fieldTypeId().unwrap()) {
+            ZserioTreeReturnType::Field(f) => f,
+            _ => panic!("should not happen"),
+        };
+        if let Some(field_constraint_ctx) = ctx.fieldConstraint() {
+            match ZserioParserVisitorCompat::visit_fieldConstraint(self, &field_constraint_ctx) {
+                ZserioTreeReturnType::Expression(expr) => {
+                    warn!(
+                        "field {}: the constraint is not checked by the generated code",
+                        field.name
+                    );
+                    field.constraint = Option::from(Rc::from(RefCell::from(*expr)))
+                }
+                _ => panic!("unexpected field constraint type"),
+            }
+        }
+        ZserioTreeReturnType::Field(field)
     }
     fn visit_choiceDeclaration(&mut self, ctx: &ChoiceDeclarationContext<'_>) -> Self::Return {
         let mut choice = Box::new(ZChoice {
@@ -746,6 +770,12 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             comment: "".into(),
             value: None,
         });
+        if ctx.REMOVED().is_some() {
+            warn!(
+                "enum item {} is marked as removed, but the generated code still accepts it",
+                enum_item.name
+            );
+        }
         if let Some(expression_ctx) = ctx.expression() {
             match self.visit(&*expression_ctx) {
                 ZserioTreeReturnType::Expression(e) => {
-- 
2.43.0


From acd23e8ccbadf8b8a9cc48d0a974525d681742fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 66/67] fix: replace template parameters at any depth of the
 template arguments of a field

---
 .../compiler/template_instantiation.rs        | 36 +++++++++++++------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 4b1eb2f..8048a70 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -461,6 +461,28 @@ fn instantiate_union(
     new_type_ref
 }
 
+/// Replaces the template parameters in a list of template arguments, which can again
+/// be templates, by the types they stand for.
+fn substitute_template_parameters(
+    template_arguments: &[TypeReference],
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> Vec<TypeReference> {
+    template_arguments
+        .iter()
+        .map(|argument| match instantiated_types.get(&argument.name) {
+            Some(instantiated_type) => instantiated_type.clone(),
+            None => {
+                let mut new_argument = argument.clone();
+                new_argument.template_arguments = substitute_template_parameters(
+                    &argument.template_arguments,
+                    instantiated_types,
+                );
+                new_argument
+            }
+        })
+        .collect()
+}
+
 pub fn instantiate_field(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
@@ -475,16 +497,10 @@ pub fn instantiate_field(
         // SomeOtherTemplate<TEMPLATE_TYPE> field;
 
         // Iterate over the template parameters and instantiate them.
-        let mut new_template_arguments = vec![];
-
-        for template_parameter in new_field.field_type.template_arguments.iter() {
-            if instantiated_types.contains_key(&template_parameter.name) {
-                new_template_arguments.push(instantiated_types[&template_parameter.name].clone());
-            } else {
-                new_template_arguments.push(template_parameter.clone());
-            }
-        }
-        new_field.field_type.template_arguments = new_template_arguments;
+        new_field.field_type.template_arguments = substitute_template_parameters(
+            &new_field.field_type.template_arguments,
+            instantiated_types,
+        );
 
         new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_field.field_type, ""));
         return new_field;
-- 
2.43.0


From 2f0a423fcbd642c27738b5b61a5d46b74861b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 67/67] fix: reject template instantiations whose name is used
 for a different type

---
 .../src/internal/ast/package.rs               |  4 +++
 .../compiler/template_instantiation.rs        | 29 +++++++++++++++++++
 .../zserio-rs-build/src/internal/visitor.rs   |  1 +
 3 files changed, 34 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/package.rs b/crates/zserio-rs-build/src/internal/ast/package.rs
index b909592..b75e838 100644
--- a/crates/zserio-rs-build/src/internal/ast/package.rs
+++ b/crates/zserio-rs-build/src/internal/ast/package.rs
@@ -29,4 +29,8 @@ pub struct ZPackage {
     pub subtypes: Vec<Rc<RefCell<Subtype>>>,
     pub instantiated_types: Vec<Rc<RefCell<InstantiateType>>>,
     pub bitmask_types: Vec<Rc<RefCell<ZBitmaskType>>>,
+
+    /// The template and the template arguments of all instantiated templates, by the name of
+    /// the instantiated type.
+    pub template_instantiations: BTreeMap<String, String>,
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 8048a70..6b3b10b 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -35,6 +35,7 @@ pub fn instantiate_type(
         // in case no name is provided, a new name needs to be generated.
         new_type_name = generate_instantiated_name(zserio_type);
     }
+    register_template_instantiation(pkg, zserio_type, &new_type_name);
 
     let symbol = scope.resolve_symbol(&zserio_type.name, true);
     match symbol.symbol {
@@ -85,6 +86,34 @@ fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     new_name
 }
 
+/// Makes sure that the name of an instantiated type isn't used for any other type, which would
+/// silently replace the instantiated one.
+fn register_template_instantiation(pkg: &mut ZPackage, zserio_type: &TypeReference, name: &str) {
+    let template_arguments: Vec<String> = zserio_type
+        .template_arguments
+        .iter()
+        .map(generate_instantiated_name)
+        .collect();
+    let instantiation = format!("{}<{}>", zserio_type.name, template_arguments.join(", "));
+
+    match pkg.template_instantiations.get(name) {
+        Some(existing) => assert!(
+            *existing == instantiation,
+            "the name {name} is used for both {existing} and {instantiation}"
+        ),
+        None => {
+            assert!(
+                !pkg.structs.contains_key(name)
+                    && !pkg.zchoices.contains_key(name)
+                    && !pkg.zunions.contains_key(name),
+                "the name {name} of {instantiation} is already used for another type"
+            );
+            pkg.template_instantiations
+                .insert(String::from(name), instantiation);
+        }
+    }
+}
+
 fn instantiate_struct(
     pkg: &mut ZPackage,
     scope: &mut ModelScope,
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 6b98872..03dc14c 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -173,6 +173,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             subtypes: vec![],
             instantiated_types: vec![],
             bitmask_types: vec![],
+            template_instantiations: BTreeMap::new(),
         });
 
         for directive in ctx.languageDirective_all() {
-- 
2.43.0

