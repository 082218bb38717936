From 8d38dd2fd219ee475293cd8930a7dcd288629b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 01/12] fix: report a corrupt 0xffffffff offset as an error
 instead of panicking

---
 src/hive.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..c2341ba 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
-- 
2.43.0


From a4cf6c4ae3e74016b6f10e8864e66fd40336de9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 02/12] fix: reject a cell of size 0 instead of underflowing
 its data size

---
 src/hive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index c2341ba..6ed7cde 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -131,8 +131,8 @@ where
         let header = Ref::<&[u8], CellHeader>::from_bytes(&self.data[header_range]).unwrap();
         let cell_size = header.size.get();
 
-        // A cell with size > 0 is unallocated and shouldn't be processed any further by us.
-        if cell_size > 0 {
+        // A cell with size >= 0 is unallocated and shouldn't be processed any further by us.
+        if cell_size >= 0 {
             return Err(NtHiveError::UnallocatedCell {
                 offset: self.offset_of_data_offset(data_offset),
                 size: cell_size,
-- 
2.43.0


From 529887d59a631921634fb79eb95e67797da51d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 03/12] fix: report a bad hive signature as an error instead of
 panicking

---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index 6ed7cde..5f88079 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -173,7 +173,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From 95d913e9622522b9230914d124e4b067bee989e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:36 +0000
Subject: [PATCH 04/12] fix: report the offset of DWORD and QWORD data of the
 wrong size, not of a local variable

---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 5f88079..bcdbbb6 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -169,8 +169,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const () as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From fa5360b6f023500cae8c0c2055048fcebeab5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 05/12] fix: exhaust an iterator when nth() skips beyond the
 address space

---
 src/big_data.rs        | 12 +++++++-----
 src/index_root.rs      |  7 ++++---
 src/key_values_list.rs | 14 ++++++++------
 src/leaf.rs            | 14 ++++++++------
 4 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..544bd79 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -168,9 +168,10 @@ impl Iterator for BigDataListItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        // `n` is arbitrary and usize, so we may hit boundaries here.
+        // Saturate in that case, which exhausts the iterator.
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<BigDataListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -266,8 +267,9 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        // `n` is arbitrary and usize, so we may hit boundaries here.
+        // Saturate in that case, which exhausts the iterator.
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
         if self.bytes_left == 0 {
             return None;
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..b03d29f 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -96,9 +96,10 @@ impl Iterator for IndexRootItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        // `n` is arbitrary and usize, so we may hit boundaries here.
+        // Saturate in that case, which exhausts the iterator.
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<IndexRootItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..7cb4d1c 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -97,9 +97,10 @@ impl Iterator for KeyValuesListItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        // `n` is arbitrary and usize, so we may hit boundaries here.
+        // Saturate in that case, which exhausts the iterator.
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -171,13 +172,14 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
+        // `n` is arbitrary and usize, so we may hit boundaries here.
+        // Saturate in that case, which exhausts the iterator.
+        let bytes_to_skip = n.saturating_mul(mem::size_of::<KeyValuesListItem>());
         self.key_values_list_item_ranges.items_range.start = self
             .key_values_list_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..588a436 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -204,9 +204,10 @@ impl Iterator for LeafItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        // `n` is arbitrary and usize, so we may hit boundaries here.
+        // Saturate in that case, which exhausts the iterator.
+        let bytes_to_skip = n.saturating_mul(self.leaf_type.item_size());
+        self.items_range.start = self.items_range.start.saturating_add(bytes_to_skip);
         self.next()
     }
 
@@ -286,13 +287,14 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
+        // `n` is arbitrary and usize, so we may hit boundaries here.
+        // Saturate in that case, which exhausts the iterator.
+        let bytes_to_skip = n.saturating_mul(self.leaf_item_ranges.leaf_type.item_size());
         self.leaf_item_ranges.items_range.start = self
             .leaf_item_ranges
             .items_range
             .start
-            .checked_add(bytes_to_skip)?;
+            .saturating_add(bytes_to_skip);
         self.next()
     }
 
-- 
2.43.0


From 8f445e7414cd175cd6246f81a4d6a1c3f800fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 06/12] fix: derive the length of BigDataSlices from the bytes
 left, not from the segment count

---
 src/big_data.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 544bd79..871b789 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -254,7 +254,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -283,7 +284,9 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // The segment list may have more entries than we need to get all bytes.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From 8a30600f30ad466b56387e9a1ded61889a212661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 07/12] fix: prevent overflows on targets with a 32-bit usize

---
 src/hive.rs            | 2 +-
 src/key_values_list.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index bcdbbb6..157d288 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -179,7 +179,7 @@ where
 
     /// Calculate a data offset's offset from the very beginning of the hive bytes.
     pub(crate) fn offset_of_data_offset(&self, data_offset: usize) -> usize {
-        data_offset + mem::size_of::<HiveBaseBlock>()
+        data_offset.saturating_add(mem::size_of::<HiveBaseBlock>())
     }
 
     /// Returns the major version of this hive.
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 7cb4d1c..0751c01 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -58,7 +58,7 @@ impl KeyValuesListItemRanges {
         count_field_offset: usize,
         cell_range: Range<usize>,
     ) -> Result<Self> {
-        let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();
+        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
 
         let items_range = byte_subrange(&cell_range, byte_count).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
-- 
2.43.0


From d50db0c9bcd3a76a61af89380b03ea31bcc760c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 08/12] fix: report an unreadable value name in KeyNode::value
 instead of returning that value

---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From 32653ea7c6f31766dc402160aeb5f2825cae6776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 09/12] fix: report the calculated checksum as the expected one

---
 src/hive.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index 157d288..c36c962 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -243,8 +243,8 @@ where
             Ok(())
         } else {
             Err(NtHiveError::InvalidChecksum {
-                expected: checksum,
-                actual: calculated_checksum,
+                expected: calculated_checksum,
+                actual: checksum,
             })
         }
     }
-- 
2.43.0


From 9fd622d2d7329bf3926e5fedb62801918cb40acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:57 +0000
Subject: [PATCH 10/12] fix: report the specified data size as expected and the
 available one as actual, like all other InvalidSizeField errors

---
 src/big_data.rs  | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 871b789..f860249 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -101,8 +101,8 @@ impl BigDataListItemRanges {
         if data_size > max_data_size {
             return Err(NtHiveError::InvalidSizeField {
                 offset: data_size_field_offset,
-                expected: max_data_size,
-                actual: data_size,
+                expected: data_size,
+                actual: max_data_size,
             });
         }
 
diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..79629a2 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -158,8 +158,8 @@ where
             if data_size > mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidSizeField {
                     offset: self.hive.offset_of_field(&header.data_size),
-                    expected: mem::size_of::<u32>(),
-                    actual: data_size,
+                    expected: data_size,
+                    actual: mem::size_of::<u32>(),
                 });
             }
 
-- 
2.43.0


From dce9f45db37f30bdccc7ea77ad6361eff4cb3893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 11/12] fix: end RegMultiSZStrings for good at the terminating
 empty string

---
 src/key_value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key_value.rs b/src/key_value.rs
index 79629a2..efaf268 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -528,6 +528,9 @@ where
         }
 
         if string.is_empty() {
+            // The empty string marks the end of the list, regardless of what follows it.
+            self.char_iter = None;
+            self.big_iter = None;
             None
         } else {
             Some(Ok(string))
-- 
2.43.0


From 9ba829d29887bf7a847af808afc4768a41096daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 12/12] fix: decode a surrogate pair that is split over two Big
 Data segments

---
 src/key_value.rs | 84 ++++++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 35 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index efaf268..7d3ee91 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -23,8 +23,9 @@ use crate::string::NtHiveNameString;
 use {
     alloc::{string::String, vec::Vec},
     core::{
-        char::{self, DecodeUtf16, DecodeUtf16Error},
-        iter::{self, FusedIterator, Map},
+        char::{self, DecodeUtf16},
+        iter::{self, Chain, FusedIterator, Map},
+        option,
         slice::ChunksExact,
     },
 };
@@ -207,6 +208,7 @@ where
         I: Iterator<Item = Result<&'h [u8]>>,
     {
         let mut string = String::new();
+        let mut undecoded = None;
 
         // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
         // Transparently concatenate them in the output string.
@@ -221,21 +223,30 @@ where
             // Hence, the count of UTF-16 code points is a good estimate for the final string length.
             string.reserve(u16_iter.len());
 
+            // A surrogate pair may be split over two Big Data segments.
+            // Hence, begin with a trailing surrogate of the previous segment that couldn't be decoded on its own.
+            let u16_iter = undecoded.take().into_iter().chain(u16_iter);
+
             // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
-
-            for c in char_iter {
-                // Some applications erroneously store NUL-terminated strings in the registry.
-                // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
-                if c == '\0' {
-                    return Ok(string);
-                } else {
-                    string.push(c);
+            for result in char::decode_utf16(u16_iter) {
+                if undecoded.take().is_some() {
+                    string.push(char::REPLACEMENT_CHARACTER);
+                }
+
+                match result {
+                    // Some applications erroneously store NUL-terminated strings in the registry.
+                    // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
+                    Ok('\0') => return Ok(string),
+                    Ok(c) => string.push(c),
+                    Err(e) => undecoded = Some(e.unpaired_surrogate()),
                 }
             }
         }
 
+        if undecoded.is_some() {
+            string.push(char::REPLACEMENT_CHARACTER);
+        }
+
         Ok(string)
     }
 
@@ -428,10 +439,8 @@ where
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
 #[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
-    fn(Result<char, DecodeUtf16Error>) -> char,
->;
+type RegMultiSZCharIter<'h> =
+    DecodeUtf16<Chain<option::IntoIter<u16>, Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>>;
 
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
@@ -450,7 +459,7 @@ where
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            char_iter: Some(Self::make_char_iter(None, data)),
             big_iter: None,
         }
     }
@@ -462,22 +471,16 @@ where
         }
     }
 
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
+    fn make_char_iter(undecoded: Option<u16>, slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
         let u16_iter = slice_data
             .chunks_exact(2)
             .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
+        char::decode_utf16(undecoded.into_iter().chain(u16_iter))
     }
 
     fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
         u16::from_le_bytes(two_bytes.try_into().unwrap())
     }
-
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
-    }
 }
 
 #[cfg(feature = "alloc")]
@@ -489,6 +492,7 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         let mut string = String::new();
+        let mut undecoded = None;
 
         'outer_loop: loop {
             let char_iter = match self.char_iter.as_mut() {
@@ -503,21 +507,27 @@ where
                         Some(Err(e)) => return Some(Err(e)),
                         None => break 'outer_loop,
                     };
-                    let char_iter = Self::make_char_iter(slice_data);
+                    // A surrogate pair may be split over two Big Data segments.
+                    // Hence, begin with a trailing surrogate of the previous segment that couldn't be decoded on its own.
+                    let char_iter = Self::make_char_iter(undecoded.take(), slice_data);
                     self.char_iter = Some(char_iter);
                     continue 'outer_loop;
                 }
             };
 
-            for c in char_iter {
-                // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
-                // The final string has a double-NUL termination.
-                //
-                // However, we will happily accept data without terminating NUL characters as well.
-                if c == '\0' {
-                    break 'outer_loop;
-                } else {
-                    string.push(c);
+            for result in char_iter {
+                if undecoded.take().is_some() {
+                    string.push(char::REPLACEMENT_CHARACTER);
+                }
+
+                match result {
+                    // REG_MULTI_SZ data consists of multiple strings each terminated by a NUL character.
+                    // The final string has a double-NUL termination.
+                    //
+                    // However, we will happily accept data without terminating NUL characters as well.
+                    Ok('\0') => break 'outer_loop,
+                    Ok(c) => string.push(c),
+                    Err(e) => undecoded = Some(e.unpaired_surrogate()),
                 }
             }
 
@@ -527,6 +537,10 @@ where
             self.char_iter = None;
         }
 
+        if undecoded.is_some() {
+            string.push(char::REPLACEMENT_CHARACTER);
+        }
+
         if string.is_empty() {
             // The empty string marks the end of the list, regardless of what follows it.
             self.char_iter = None;
-- 
2.43.0

