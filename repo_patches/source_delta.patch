From 31549afe5d7dfb519960fd204cf5ec651ad9d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 01/13] fix: write the full field id when the delta does not
 fit the short form

The long form of a field header contains the field id, not the delta.
Deltas of zero or below cannot be represented in the short form.
---
 runtime/src/protocol.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 9eaaeb5..593296f 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -258,13 +258,14 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
 
 #[inline]
 pub(crate) fn write_field_header<T: CompactThriftOutput>(output: &mut T, field_type: u8, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
-    let field_delta = field_id.wrapping_sub(*last_field_id);
+    let field_delta = field_id as i32 - *last_field_id as i32;
 
-    if field_delta > 15 {
-        output.write_byte(field_type)?;
-        output.write_i16(field_delta)?
-    } else {
+    // the short form can only express deltas from 1 to 15
+    if (1..=15).contains(&field_delta) {
         output.write_byte(field_type | ((field_delta as u8) << 4))?;
+    } else {
+        output.write_byte(field_type)?;
+        output.write_i16(field_id)?
     }
     *last_field_id = field_id;
     Ok(())
-- 
2.43.0


From 0c3df6b0cdf7bf7d2578630432403b59ba1af012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 02/13] fix: return an error when skipping truncated integers
 in slices

Skipping panicked if the slice ended inside of the integer, and read out of
bounds for integers with more than 15 continuation bytes.
---
 runtime/src/protocol.rs | 15 +++++++++------
 runtime/src/uleb.rs     |  9 ++++++---
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 593296f..5a151c0 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -361,13 +361,16 @@ impl <'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
     #[inline]
     #[cfg(target_feature = "sse2")]
     fn skip_integer(&mut self) -> Result<(), ThriftError> {
-        if self.0.len() >= 16 {
-            self.0 = unsafe { skip_uleb_sse2(self.0) };
-            Ok(())
-        } else {
-            self.0 = skip_uleb_fallback(self.0);
-            Ok(())
+        while self.0.len() >= 16 {
+            let input = self.0;
+            self.0 = unsafe { skip_uleb_sse2(input) };
+            let len = input.len() - self.0.len();
+            if input[len - 1] & 0x80 == 0 {
+                return Ok(())
+            }
         }
+        self.0 = skip_uleb_fallback(self.0)?;
+        Ok(())
     }
 
     fn skip_binary(&mut self) -> Result<(), ThriftError> {
diff --git a/runtime/src/uleb.rs b/runtime/src/uleb.rs
index d06211d..ad31b21 100644
--- a/runtime/src/uleb.rs
+++ b/runtime/src/uleb.rs
@@ -1,3 +1,4 @@
+use std::io::ErrorKind;
 use crate::CompactThriftInput;
 use crate::CompactThriftOutput;
 use crate::ThriftError;
@@ -18,6 +19,8 @@ pub(crate) fn decode_uleb<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I)
     }
 }
 
+/// Skips at most 16 bytes, the integer continues after those if the high bit of the last skipped byte is set.
+///
 /// Safety: `input` needs to contain at least 16 bytes
 #[cfg(target_feature = "sse2")]
 #[inline]
@@ -26,17 +29,17 @@ pub(crate) unsafe fn skip_uleb_sse2(input: &[u8]) -> &[u8] {
     debug_assert!(input.len() >= 16);
     let chunk = _mm_loadu_si128(input.as_ptr().cast());
     let mask = !_mm_movemask_epi8(chunk);
-    let len = (mask << 1).trailing_zeros() as usize;
+    let len = ((mask << 1) | (1 << 16)).trailing_zeros() as usize;
     input.get_unchecked(len..)
 }
 
 #[inline(never)]
-pub(crate) fn skip_uleb_fallback(input: &[u8]) -> &[u8] {
+pub(crate) fn skip_uleb_fallback(input: &[u8]) -> Result<&[u8], ThriftError> {
     let mut i = 0_usize;
     while i < input.len() && (input[i] & 0x80) != 0 {
         i += 1;
     }
-    &input[i+1..]
+    input.get(i+1..).ok_or(ThriftError::IO(ErrorKind::UnexpectedEof))
 }
 
 pub(crate) fn encode_uleb<O: CompactThriftOutput + ?Sized>(output: &mut O, mut value: u64) -> Result<(), ThriftError> {
-- 
2.43.0


From 777f51e680134273bb80090488c9902635e2581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 03/13] fix: reject boolean fields with a different wire type

The content of such a field was otherwise parsed as the following fields.
---
 runtime/src/types.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 76c05ac..4318ec5 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -33,7 +33,11 @@ impl <'i> CompactThriftProtocol<'i> for bool {
 
     #[inline]
     fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, _input: &mut T, field_type: u8) -> Result<(), ThriftError> {
-        *self = field_type == 1;
+        match field_type {
+            1 => *self = true,
+            2 => *self = false,
+            _ => return Err(ThriftError::InvalidType),
+        }
         Ok(())
     }
 
-- 
2.43.0


From 8fdf80531efa41118c51d320eb56457e11aca248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 04/13] fix: check the wire type of union variants

Boolean variants store their value in the field header and could not be read
back. Also use the name of the union in the error for unknown variants.
---
 runtime/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index 7dce2bd..f101ec5 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -158,12 +158,12 @@ macro_rules! thrift_union {
                         *self = Self::$field_name(Default::default());
                         #[allow(unreachable_patterns)]
                         match self {
-                            Self::$field_name(inner) => inner.fill_thrift(input)?,
+                            Self::$field_name(inner) => inner.fill_thrift_field(input, field_type)?,
                             _ => unsafe { std::hint::unreachable_unchecked() },
                         }
                     }),*
                     _ => {
-                        return Err($crate::ThriftError::MissingField(concat!(stringify!($struct_name), "\0").into()))
+                        return Err($crate::ThriftError::MissingField(concat!(stringify!($identifier), "\0").into()))
                     }
                 }
                 let stop = input.read_byte()?;
-- 
2.43.0


From 053213981a283131f5c437d920d5f6280f28fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 05/13] fix: delegate reading and writing of Box, Rc and Arc
 fields

Boxed booleans were written with an additional byte instead of storing the
value in the field header.
---
 runtime/src/types.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/runtime/src/types.rs b/runtime/src/types.rs
index 4318ec5..c35b9d0 100644
--- a/runtime/src/types.rs
+++ b/runtime/src/types.rs
@@ -292,10 +292,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Box::as_mut(self).fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Box::as_mut(self).fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Box::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Box::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
@@ -306,10 +316,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Rc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Rc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Rc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
@@ -320,10 +340,20 @@ impl <'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for
         Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift(input)
     }
 
+    #[inline]
+    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> Result<(), ThriftError> {
+        Arc::get_mut(self).ok_or(ThriftError::DuplicateField)?.fill_thrift_field(input, field_type)
+    }
+
     #[inline]
     fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> Result<(), ThriftError> {
         Arc::as_ref(self).write_thrift(output)
     }
+
+    #[inline]
+    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> Result<(), ThriftError> {
+        Arc::as_ref(self).write_thrift_field(output, field_id, last_field_id)
+    }
 }
 
 impl <'i> CompactThriftProtocol<'i> for Box<str> {
-- 
2.43.0


From 8e7ff19d766ae972eb95e637d195c454d8f8123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 06/13] fix: return an error when a field delta overflows the
 field id

---
 runtime/src/protocol.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index 5a151c0..a0fc7c5 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -101,7 +101,7 @@ pub trait CompactThriftInput<'i> {
         let field_type = field_header & 0x0F;
         let field_delta = field_header >> 4;
         if field_delta != 0 {
-            *last_field_id += field_delta as i16;
+            *last_field_id = last_field_id.checked_add(field_delta as i16).ok_or(ThriftError::InvalidNumber)?;
         } else {
             *last_field_id = read_full_field_id(self)?;
         }
-- 
2.43.0


From 71d610bc187c1acacbc1052d65a9e392d4ed3d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 07/13] fix: limit the nesting depth of skipped fields

Deeply nested unknown fields overflowed the stack and aborted the process.
---
 runtime/src/error.rs    |  1 +
 runtime/src/protocol.rs | 29 +++++++++++++++++++----------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/runtime/src/error.rs b/runtime/src/error.rs
index 1d002eb..b459219 100644
--- a/runtime/src/error.rs
+++ b/runtime/src/error.rs
@@ -19,6 +19,7 @@ pub enum ThriftError {
     DuplicateField,
     InvalidType,
     ReserveError,
+    RecursionLimit,
     IO(ErrorKind)
 }
 
diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index a0fc7c5..b915aa7 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -12,6 +12,8 @@ use crate::uleb::*;
 
 pub const MAX_BINARY_LEN: usize = 16*1024*1024;
 pub const MAX_COLLECTION_LEN: usize = 10_000_000;
+/// Maximum nesting of structs and collections inside a skipped field
+const MAX_SKIP_DEPTH: u32 = 64;
 
 #[inline(never)] // full field ids are uncommon and inlining this bloats the code
 fn read_full_field_id<'i, I: CompactThriftInput<'i> + ?Sized>(input: &mut I) -> Result<i16, ThriftError> {
@@ -145,7 +147,8 @@ pub fn read_map_len_and_types<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mu
     Ok((len as u32, key_type, val_type))
 }
 
-fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: u32) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::RecursionLimit)?;
     let (len, element_type) = read_collection_len_and_type(input)?;
     match element_type {
         1..=3 => {
@@ -176,18 +179,18 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
         9 | 10 => {
             // list | set
             for _ in 0..len {
-                skip_collection(input)?;
+                skip_collection(input, depth)?;
             }
         }
         11 => {
             // map
             for _ in 0..len {
-                skip_map(input)?;
+                skip_map(input, depth)?;
             }
         }
         12 => {
             for _ in 0..len {
-                skip_field(input, 12, false)?;
+                skip_nested_field(input, 12, false, depth)?;
             }
         }
         _ => {
@@ -197,16 +200,21 @@ fn skip_collection<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Res
     Ok(())
 }
 
-fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T) -> Result<(), ThriftError> {
+fn skip_map<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, depth: u32) -> Result<(), ThriftError> {
+    let depth = depth.checked_sub(1).ok_or(ThriftError::RecursionLimit)?;
     let (len, key_type, val_type) = read_map_len_and_types(input)?;
     for _ in 0..len {
-        skip_field(input, key_type, true)?;
-        skip_field(input, val_type, true)?;
+        skip_nested_field(input, key_type, true, depth)?;
+        skip_nested_field(input, val_type, true, depth)?;
     }
     Ok(())
 }
 
 pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool) -> Result<(), ThriftError> {
+    skip_nested_field(input, field_type, inside_collection, MAX_SKIP_DEPTH)
+}
+
+fn skip_nested_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T, field_type: u8, inside_collection: bool, depth: u32) -> Result<(), ThriftError> {
     match field_type {
         1..=2 => {
             // boolean stored inside the field header outside of collections
@@ -232,21 +240,22 @@ pub(crate) fn skip_field<'i, T: CompactThriftInput<'i> + ?Sized>(input: &mut T,
         }
         9 | 10 => {
             // list | set
-            skip_collection(input)?;
+            skip_collection(input, depth)?;
         }
         11 => {
             // map
-            skip_map(input)?;
+            skip_map(input, depth)?;
         }
         12 => {
             // struct | union
+            let depth = depth.checked_sub(1).ok_or(ThriftError::RecursionLimit)?;
             let mut last_field_id = 0_i16;
             loop {
                 let field_type = input.read_field_header(&mut last_field_id)?;
                 if field_type == 0 {
                     break;
                 }
-                skip_field(input, field_type, false)?;
+                skip_nested_field(input, field_type, false, depth)?;
             }
         }
         _ => {
-- 
2.43.0


From 8f94a9d8765d4b3805e4be39d13c1a4236c33b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 08/13] fix: map the thrift type byte to i8

There is no CompactThriftProtocol implementation for u8, so definitions using
byte did not compile.
---
 runtime/src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/macros.rs b/runtime/src/macros.rs
index f101ec5..8c8bbbc 100644
--- a/runtime/src/macros.rs
+++ b/runtime/src/macros.rs
@@ -252,7 +252,7 @@ macro_rules! __thrift_field_type {
     (set $element_type:ident) => { Vec< $crate::__thrift_field_type!($element_type) > };
     (binary) => { Vec<u8> };
     (string) => { String };
-    (byte) => { u8 };
+    (byte) => { i8 };
     (double) => { f64 };
     ($field_type:ty) => { $field_type }; // this covers bool | i8 | i16 | i32 | i64
     (Box $element_type:ident) => { std::boxed::Box< $crate::__thrift_field_type!($element_type) > };
-- 
2.43.0


From 4fdd39d760d6e8e02b2148fde05a894a9b205c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:37 +0000
Subject: [PATCH 09/13] fix: locate the metadata relative to its footer

Another footer could have been appended since, seeking from the end would then
return bytes that are not the metadata of either version.
---
 parquet/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index c90ee50..8f0a71d 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -44,7 +44,8 @@ pub fn get_metadata_chunk<R: Read + Seek>(input: &mut R) -> Result<Vec<u8>, Parq
     }
 
     let metadata_len = u32::from_le_bytes(footer[0..4].try_into().unwrap()) as usize;
-    input.seek(SeekFrom::End(-(metadata_len as i64) - 8))?;
+    // relative to the footer that was just read, since the end could have moved if the file is appended to
+    input.seek(SeekFrom::Current(-(metadata_len as i64) - 8))?;
 
     let mut buf = Vec::with_capacity(metadata_len);
     // Safety: Readers should not look at uninitialized bytes, only write into the slice
-- 
2.43.0


From 75933e115a398144c7e0649a39d588548e1b4cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 10/13] fix: validate page index locations against the chunk

Locations outside of the chunk panicked, as did columns that only have an
offset index and whose location is therefore not covered by the chunk.
---
 parquet/src/lib.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 8f0a71d..3cd51cd 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -104,31 +104,32 @@ pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileM
     }
 }
 
+fn slice_index(chunk: &[u8], chunk_offset: usize, offset: i64, length: i32) -> Result<&[u8], ParquetError> {
+    let offset = usize::try_from(offset).map_err(|_| ParquetError::InvalidOffset)?;
+    let length = usize::try_from(length).map_err(|_| ParquetError::InvalidOffset)?;
+    let start = offset.checked_sub(chunk_offset).ok_or(ParquetError::InvalidOffset)?;
+    let end = start.checked_add(length).ok_or(ParquetError::InvalidOffset)?;
+    if length == 0 {
+        return Err(ParquetError::InvalidOffset);
+    }
+    chunk.get(start..end).ok_or(ParquetError::InvalidOffset)
+}
+
 fn read_page_index_for_column_chunk(chunk: &[u8], chunk_offset: usize, column_chunks: &[ColumnChunk]) -> Result<Vec<Option<(OffsetIndex, ColumnIndex)>>, ParquetError> {
     column_chunks.iter().map(|cc| {
-        let offset_index_range = if let (Some(offset), Some(length)) = (cc.offset_index_offset, cc.offset_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
-            return Ok(None)
-        };
-        let column_index_range = if let (Some(offset), Some(length)) = (cc.column_index_offset, cc.column_index_length) {
-            assert!(offset as usize >= chunk_offset);
-            assert!(length > 0);
-            let start = offset as usize - chunk_offset;
-            start..start+length as usize
-        } else {
+        // same condition as in get_page_index_range, the range does not cover incomplete locations
+        let (Some(oo), Some(ol), Some(co), Some(cl)) = (cc.offset_index_offset, cc.offset_index_length, cc.column_index_offset, cc.column_index_length) else {
             return Ok(None)
         };
+        let offset_index_slice = slice_index(chunk, chunk_offset, oo, ol)?;
+        let column_index_slice = slice_index(chunk, chunk_offset, co, cl)?;
 
         let mut res = Ok(Some((OffsetIndex::default(), ColumnIndex::default())));
 
         match &mut res {
             Ok(Some((offset_index, column_index))) => {
-                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[offset_index_range]))?;
-                column_index.fill_thrift(&mut CompactThriftInputSlice::new(&chunk[column_index_range]))?;
+                offset_index.fill_thrift(&mut CompactThriftInputSlice::new(offset_index_slice))?;
+                column_index.fill_thrift(&mut CompactThriftInputSlice::new(column_index_slice))?;
             }
             _ => unsafe { unreachable_unchecked() }
         }
-- 
2.43.0


From 4b3c0cf2f2b8bfcea7269d37252215607051441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 11/13] fix: allocate memory for page indexes only as data is
 read

The range comes from the file and could be up to 8 EiB, which panicked or
aborted instead of returning an error.
---
 parquet/src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 3cd51cd..66c7be4 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -1,5 +1,5 @@
 use std::hint::unreachable_unchecked;
-use std::io::{Read, Seek, SeekFrom, Error as IOError};
+use std::io::{Read, Seek, SeekFrom, Error as IOError, ErrorKind};
 use std::ops::Range;
 use compact_thrift_runtime::{CompactThriftProtocol, CompactThriftInputSlice, ThriftError};
 use crate::format::{ColumnChunk, ColumnIndex, FileMetaData, OffsetIndex};
@@ -84,20 +84,18 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
     }
 }
 
-#[expect(clippy::uninit_vec)]
 #[expect(clippy::type_complexity)]
 pub fn get_page_index_chunk<R: Read + Seek>(input: &mut R, file_metadata: &FileMetaData) -> Result<Option<(Vec<u8>, Range<usize>)>, ParquetError> {
     if let Some(range) = get_page_index_range(file_metadata)? {
         input.seek(SeekFrom::Start(range.start as u64))?;
 
-        let mut buf = Vec::with_capacity(range.len());
-        // Safety: Readers should not look at uninitialized bytes, only write into the slice
-        unsafe {
-            buf.set_len(range.len());
+        // the range is not trustworthy, so grow the buffer only as far as there is data
+        let mut buf = Vec::new();
+        input.take(range.len() as u64).read_to_end(&mut buf)?;
+        if buf.len() < range.len() {
+            return Err(IOError::from(ErrorKind::UnexpectedEof).into());
         }
 
-        input.read_exact(&mut buf)?;
-
         Ok(Some((buf, range)))
     } else {
         Ok(None)
-- 
2.43.0


From d94442f97050a0c0c858098132c35a8c090d7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 12/13] fix: lengths beyond 32 bits were truncated where usize
 has 32 bits, and passed the limits

---
 runtime/src/protocol.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/protocol.rs b/runtime/src/protocol.rs
index b915aa7..6e38019 100644
--- a/runtime/src/protocol.rs
+++ b/runtime/src/protocol.rs
@@ -55,7 +55,8 @@ pub trait CompactThriftInput<'i> {
     fn read_byte(&mut self) -> Result<u8, ThriftError>;
     fn read_len(&mut self) -> Result<usize, ThriftError> {
         let len = decode_uleb(self)?;
-        Ok(len as _)
+        // lengths that do not fit into usize are beyond all limits
+        Ok(usize::try_from(len).unwrap_or(usize::MAX))
     }
     fn read_i16(&mut self) -> Result<i16, ThriftError> {
         let i = decode_uleb(self)?;
-- 
2.43.0


From 136f7d759cd24a103b061784288de34d1afdd726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:46 +0000
Subject: [PATCH 13/13] fix: page index ranges beyond the address space
 overflowed where usize has 32 bits

---
 parquet/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parquet/src/lib.rs b/parquet/src/lib.rs
index 66c7be4..03be21b 100644
--- a/parquet/src/lib.rs
+++ b/parquet/src/lib.rs
@@ -68,11 +68,13 @@ pub fn get_page_index_range(file_metadata: &FileMetaData) -> Result<Option<Range
                     return Err(ParquetError::InvalidOffset);
                 }
 
-                min = min.min(oo as usize);
-                max = max.max(oo as usize + ol as usize);
-
-                min = min.min(co as usize);
-                max = max.max(co as usize + cl as usize);
+                for (offset, length) in [(oo, ol), (co, cl)] {
+                    // does not fit on targets with 32-bit addresses
+                    let start = usize::try_from(offset).map_err(|_| ParquetError::InvalidOffset)?;
+                    let end = start.checked_add(length as usize).ok_or(ParquetError::InvalidOffset)?;
+                    min = min.min(start);
+                    max = max.max(end);
+                }
             }
         }
     }
-- 
2.43.0

