From db7c800c51d96cc0e5177be20a50c8a22775e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 01/16] fix: don't panic when reporting an invalid base block
 signature

The signature is the very first field of the hive, so its address equals the
base address and the assertion in offset_of_field fired.
---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..9aeca0c 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -176,7 +176,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From b4112b919de52f2a08f4cfce09b9dfba2170af8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 02/16] fix: return an error instead of panicking for a data
 offset of u32::MAX

Such an offset can be found in any offset field of a corrupted hive.
It is out of bounds and already handled by the range check below.
---
 src/hive.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 9aeca0c..b9430b9 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
-- 
2.43.0


From ff25d3d7f943ec6361ebce4332c5d0c52fdacda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 03/16] fix: return an error for a cell size of zero

The size includes the cell header, so subtracting the header size underflowed.
---
 src/hive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index b9430b9..0a1f843 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -152,7 +152,13 @@ where
 
         // Get the actual data range and verify that it's inside our hive data.
         let remaining_range = cell_data_offset..self.data.len();
-        let cell_data_size = cell_size - mem::size_of::<CellHeader>();
+        let cell_data_size = cell_size
+            .checked_sub(mem::size_of::<CellHeader>())
+            .ok_or_else(|| NtHiveError::InvalidSizeField {
+                offset: self.offset_of_field(&header.size),
+                expected: mem::size_of::<CellHeader>(),
+                actual: cell_size,
+            })?;
         let cell_data_range = byte_subrange(&remaining_range, cell_data_size).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
                 offset: self.offset_of_field(&header.size),
-- 
2.43.0


From cca0cf02aa0b8f21e645fa50d05b221c2d3a4619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 04/16] fix: report the right offset for DWORD and QWORD data
 of an invalid size

The address of the local slice reference was used instead of the address of the
data. This led to bogus offsets, or a panic if the hive bytes are at a higher
address than the local variable.
---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 0a1f843..2ef86ed 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -175,8 +175,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const u8 as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From 398b60bb893370b4a316f823149f91a53589965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 05/16] fix: count only the Big Data slices that are actually
 returned

---
 src/big_data.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..ab1d293 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -253,7 +253,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -281,7 +282,9 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // The segment list may have more items than we need to return the entire data.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From 554f68c3dbba97c1cd6bae18990cc253b37649ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 06/16] fix: exhaust iterators when nth is called with a very
 large value

---
 src/big_data.rs        | 6 +++---
 src/index_root.rs      | 4 ++--
 src/key_values_list.rs | 8 ++++----
 src/leaf.rs            | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index ab1d293..170c5df 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -169,8 +169,8 @@ impl Iterator for BigDataListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<BigDataListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -268,7 +268,7 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
         if self.bytes_left == 0 {
             return None;
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..9ca2a12 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -97,8 +97,8 @@ impl Iterator for IndexRootItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<IndexRootItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..a8cba2a 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -98,8 +98,8 @@ impl Iterator for KeyValuesListItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -172,12 +172,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
         self.key_values_list_item_ranges.items_range.start = self
             .key_values_list_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..88f41cb 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -205,8 +205,8 @@ impl Iterator for LeafItemRanges {
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_type.item_size());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -287,12 +287,12 @@ where
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
+        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
         self.leaf_item_ranges.items_range.start = self
             .leaf_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
-- 
2.43.0


From 59bf409aae3757b9709d28bbd8b4f6baa9f075a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 07/16] fix: return the error when looking up a value and a
 name is invalid

---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From 5803d1ae5d2a505e47a2f971d81c691d0fe63819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 08/16] fix: don't apply format parameters to each character of
 a name

---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 7c16954..c45b0fd 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -3,7 +3,7 @@
 
 use core::char;
 use core::cmp::Ordering;
-use core::fmt;
+use core::fmt::{self, Write};
 
 #[cfg(feature = "alloc")]
 use alloc::string::String;
@@ -1346,7 +1346,7 @@ impl fmt::Display for NtHiveNameString<'_> {
             Self::Latin1(bytes) => {
                 for byte in bytes.iter() {
                     let single_char = *byte as char;
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
             Self::Utf16LE(_) => {
@@ -1354,7 +1354,7 @@ impl fmt::Display for NtHiveNameString<'_> {
                     .map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
 
                 for single_char in utf16_iter {
-                    single_char.fmt(f)?;
+                    f.write_char(single_char)?;
                 }
             }
         }
-- 
2.43.0


From 8fc9d5e9914e4c13323a3a134c919720dded8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 09/16] fix: read data of any size from a single cell before
 Windows XP

---
 src/key_value.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..ed5a8be 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -16,7 +16,7 @@ use zerocopy::{
 use crate::big_data::{BigDataSlices, BIG_DATA_SEGMENT_SIZE};
 use crate::error::{NtHiveError, Result};
 use crate::helpers::byte_subrange;
-use crate::hive::Hive;
+use crate::hive::{Hive, HiveMinorVersion};
 use crate::string::NtHiveNameString;
 
 #[cfg(feature = "alloc")]
@@ -167,7 +167,10 @@ where
             let data_end = data_start + data_size;
 
             Ok(KeyValueData::Small(&self.hive.data[data_start..data_end]))
-        } else if data_size <= BIG_DATA_SEGMENT_SIZE {
+        } else if data_size <= BIG_DATA_SEGMENT_SIZE
+            || self.hive.minor_version() < HiveMinorVersion::WindowsXPBeta as u32
+        {
+            // Big Data structures don't exist before Windows XP.
             // The entire data is stored in a single cell referenced by `data_offset`.
             let cell_range = self
                 .hive
-- 
2.43.0


From f6582154d3ffbef6ea61f2730281f5d97c38c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 10/16] fix: end the REG_MULTI_SZ iterator at the first empty
 string

---
 src/key_value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key_value.rs b/src/key_value.rs
index ed5a8be..e52b78b 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -531,6 +531,9 @@ where
         }
 
         if string.is_empty() {
+            // The first empty string ends the list, no matter what comes after it.
+            self.char_iter = None;
+            self.big_iter = None;
             None
         } else {
             Some(Ok(string))
-- 
2.43.0


From 5da29c6f221fb8c3b1d8cd91e6f1e7dcdd6b80c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 11/16] fix: decode surrogate pairs that are split over two Big
 Data segments

---
 src/key_value.rs | 207 +++++++++++++++++++++++++----------------------
 1 file changed, 109 insertions(+), 98 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index e52b78b..caee1a6 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -22,11 +22,7 @@ use crate::string::NtHiveNameString;
 #[cfg(feature = "alloc")]
 use {
     alloc::{string::String, vec::Vec},
-    core::{
-        char::{self, DecodeUtf16, DecodeUtf16Error},
-        iter::{self, FusedIterator, Map},
-        slice::ChunksExact,
-    },
+    core::{char, iter::FusedIterator},
 };
 
 /// This bit in `data_size` indicates that the data is small enough to be stored in `data_offset`.
@@ -205,37 +201,22 @@ where
     }
 
     #[cfg(feature = "alloc")]
-    fn utf16le_to_string_lossy<I>(iter: I) -> Result<String>
-    where
-        I: Iterator<Item = Result<&'h [u8]>>,
-    {
+    fn utf16le_to_string_lossy(chars: Utf16LEChars<'h, B>) -> Result<String> {
         let mut string = String::new();
 
-        // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
-        // Transparently concatenate them in the output string.
-        for slice_data in iter {
-            let slice_data = slice_data?;
-
-            let u16_iter = slice_data
-                .chunks_exact(2)
-                .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
-
-            // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
-            // Hence, the count of UTF-16 code points is a good estimate for the final string length.
-            string.reserve(u16_iter.len());
-
-            // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
-
-            for c in char_iter {
-                // Some applications erroneously store NUL-terminated strings in the registry.
-                // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
-                if c == '\0' {
-                    return Ok(string);
-                } else {
-                    string.push(c);
-                }
+        // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
+        // Hence, the count of UTF-16 code points is a good estimate for the final string length.
+        string.reserve(chars.slice.len() / mem::size_of::<u16>());
+
+        for c in chars {
+            let c = c?;
+
+            // Some applications erroneously store NUL-terminated strings in the registry.
+            // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
+            if c == '\0' {
+                return Ok(string);
+            } else {
+                string.push(c);
             }
         }
 
@@ -257,8 +238,8 @@ where
         }
 
         match self.data()? {
-            KeyValueData::Small(data) => Self::utf16le_to_string_lossy(iter::once(Ok(data))),
-            KeyValueData::Big(iter) => Self::utf16le_to_string_lossy(iter),
+            KeyValueData::Small(data) => Self::utf16le_to_string_lossy(Utf16LEChars::small(data)),
+            KeyValueData::Big(iter) => Self::utf16le_to_string_lossy(Utf16LEChars::big(iter)),
         }
     }
 
@@ -430,56 +411,110 @@ where
 
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
-#[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
-    fn(Result<char, DecodeUtf16Error>) -> char,
->;
-
+/// Iterator over the characters of UTF-16LE data, replacing undecodable ones silently.
+///
+/// Very long data may be split over several Big Data segments.
+/// These are transparently concatenated (even if two surrogates are in different segments).
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
-pub struct RegMultiSZStrings<'h, B>
-where
-    B: SplitByteSlice + 'h,
-{
-    char_iter: Option<RegMultiSZCharIter<'h>>,
+struct Utf16LEChars<'h, B: SplitByteSlice> {
+    slice: &'h [u8],
     big_iter: Option<BigDataSlices<'h, B>>,
+    /// Code unit following an unpaired high surrogate.
+    peeked: Option<Result<u16>>,
 }
 
 #[cfg(feature = "alloc")]
-impl<'h, B> RegMultiSZStrings<'h, B>
+impl<'h, B> Utf16LEChars<'h, B>
 where
-    B: SplitByteSlice + 'h,
+    B: SplitByteSlice,
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            slice: data,
             big_iter: None,
+            peeked: None,
         }
     }
 
     fn big(iter: BigDataSlices<'h, B>) -> Self {
         Self {
-            char_iter: None,
+            slice: &[],
             big_iter: Some(iter),
+            peeked: None,
         }
     }
 
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
-        let u16_iter = slice_data
-            .chunks_exact(2)
-            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
+    fn next_code_unit(&mut self) -> Option<Result<u16>> {
+        if let Some(code_unit) = self.peeked.take() {
+            return Some(code_unit);
+        }
+
+        // Every slice except for the last one has an even number of bytes.
+        while self.slice.len() < mem::size_of::<u16>() {
+            self.slice = iter_try!(self.big_iter.as_mut()?.next()?);
+        }
+
+        let code_unit = u16::from_le_bytes([self.slice[0], self.slice[1]]);
+        self.slice = &self.slice[mem::size_of::<u16>()..];
+
+        Some(Ok(code_unit))
+    }
+}
+
+#[cfg(feature = "alloc")]
+impl<'h, B> Iterator for Utf16LEChars<'h, B>
+where
+    B: SplitByteSlice,
+{
+    type Item = Result<char>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        let code_unit = iter_try!(self.next_code_unit()?);
+
+        // Check if we can combine this code unit with the following one to a character
+        // outside the UTF-16 Basic Multilingual Plane.
+        if matches!(code_unit, 0xd800..=0xdbff) {
+            match self.next_code_unit() {
+                Some(Ok(low_surrogate @ 0xdc00..=0xdfff)) => {
+                    let high_bits = (code_unit as u32 - 0xd800) << 10;
+                    let low_bits = low_surrogate as u32 - 0xdc00;
+                    let c = char::from_u32(0x1_0000 + high_bits + low_bits);
+                    return Some(Ok(c.unwrap_or(char::REPLACEMENT_CHARACTER)));
+                }
+                following => self.peeked = following,
+            }
+        }
+
+        let c = char::from_u32(code_unit as u32);
+        Some(Ok(c.unwrap_or(char::REPLACEMENT_CHARACTER)))
     }
+}
+
+#[cfg(feature = "alloc")]
+#[derive(Clone)]
+pub struct RegMultiSZStrings<'h, B>
+where
+    B: SplitByteSlice + 'h,
+{
+    chars: Option<Utf16LEChars<'h, B>>,
+}
 
-    fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
-        u16::from_le_bytes(two_bytes.try_into().unwrap())
+#[cfg(feature = "alloc")]
+impl<'h, B> RegMultiSZStrings<'h, B>
+where
+    B: SplitByteSlice + 'h,
+{
+    fn small(data: &'h [u8]) -> Self {
+        Self {
+            chars: Some(Utf16LEChars::small(data)),
+        }
     }
 
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
+    fn big(iter: BigDataSlices<'h, B>) -> Self {
+        Self {
+            chars: Some(Utf16LEChars::big(iter)),
+        }
     }
 }
 
@@ -493,47 +528,23 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let mut string = String::new();
 
-        'outer_loop: loop {
-            let char_iter = match self.char_iter.as_mut() {
-                Some(char_iter) => char_iter,
-                None => {
-                    let big_iter = match self.big_iter.as_mut() {
-                        Some(big_iter) => big_iter,
-                        None => break 'outer_loop,
-                    };
-                    let slice_data = match big_iter.next() {
-                        Some(Ok(slice_data)) => slice_data,
-                        Some(Err(e)) => return Some(Err(e)),
-                        None => break 'outer_loop,
-                    };
-                    let char_iter = Self::make_char_iter(slice_data);
-                    self.char_iter = Some(char_iter);
-                    continue 'outer_loop;
-                }
-            };
-
-            for c in char_iter {
-                // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
-                // The final string has a double-NUL termination.
-                //
-                // However, we will happily accept data without terminating NUL characters as well.
-                if c == '\0' {
-                    break 'outer_loop;
-                } else {
-                    string.push(c);
-                }
+        for c in self.chars.as_mut()? {
+            let c = iter_try!(c);
+
+            // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
+            // The final string has a double-NUL termination.
+            //
+            // However, we will happily accept data without terminating NUL characters as well.
+            if c == '\0' {
+                break;
+            } else {
+                string.push(c);
             }
-
-            // We have fully iterated all characters of this slice.
-            // Get a new `char_iter` in the next iteration of the outer loop, and concatenate characters
-            // to our `string` until we find a NUL or no more data.
-            self.char_iter = None;
         }
 
         if string.is_empty() {
             // The first empty string ends the list, no matter what comes after it.
-            self.char_iter = None;
-            self.big_iter = None;
+            self.chars = None;
             None
         } else {
             Some(Ok(string))
-- 
2.43.0


From 45ae7fa8da412cfdf327e11b1847b4c8caf2c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 12/16] fix: don't overflow on 32-bit systems for a huge value
 count

---
 src/key_values_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index a8cba2a..f416314 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -58,7 +58,7 @@ impl KeyValuesListItemRanges {
         count_field_offset: usize,
         cell_range: Range<usize>,
     ) -> Result<Self> {
-        let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();
+        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
 
         let items_range = byte_subrange(&cell_range, byte_count).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
-- 
2.43.0


From 5562926c162ad07824d5f1f57062af9583ed4afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 13/16] fix: don't overflow on 32-bit systems when reporting an
 invalid data offset

---
 src/hive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index 2ef86ed..b8bf531 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -185,7 +185,8 @@ where
 
     /// Calculate a data offset's offset from the very beginning of the hive bytes.
     pub(crate) fn offset_of_data_offset(&self, data_offset: usize) -> usize {
-        data_offset + mem::size_of::<HiveBaseBlock>()
+        // `data_offset` may be any u32 value here.
+        data_offset.saturating_add(mem::size_of::<HiveBaseBlock>())
     }
 
     /// Returns the major version of this hive.
-- 
2.43.0


From d156e946e3b4806591fa8047aaab14e6aed54cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 14/16] fix: report the calculated checksum as the expected one

---
 src/hive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index b8bf531..a604afa 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -250,8 +250,8 @@ where
             Ok(())
         } else {
             Err(NtHiveError::InvalidChecksum {
-                expected: checksum,
-                actual: calculated_checksum,
+                expected: calculated_checksum,
+                actual: checksum,
             })
         }
     }
-- 
2.43.0


From d03e02a3c3ddce660377184cab2bec1ad5700b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 15/16] fix: don't swap expected and actual size for inline
 data

---
 src/key_value.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index caee1a6..8710d78 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -154,8 +154,8 @@ where
             if data_size > mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidSizeField {
                     offset: self.hive.offset_of_field(&header.data_size),
-                    expected: mem::size_of::<u32>(),
-                    actual: data_size,
+                    expected: data_size,
+                    actual: mem::size_of::<u32>(),
                 });
             }
 
-- 
2.43.0


From 95850fb780962a44a4ea90f7484a2923b8d82d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:12 +0000
Subject: [PATCH 16/16] fix: don't swap expected and actual size for too large
 Big Data

---
 src/big_data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 170c5df..d4a57e2 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -101,8 +101,8 @@ impl BigDataListItemRanges {
         if data_size > max_data_size {
             return Err(NtHiveError::InvalidSizeField {
                 offset: data_size_field_offset,
-                expected: max_data_size,
-                actual: data_size,
+                expected: data_size,
+                actual: max_data_size,
             });
         }
 
-- 
2.43.0

