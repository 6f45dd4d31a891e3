From c5b7a6640af8a61095932e8acd4d5e201f807d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 01/75] fix: builder capacity checks overflow u16 for large bit
 counts

---
 src/cell/builder.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index ca5e90d..020df77 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -412,7 +412,7 @@ impl CellBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits` and `refs`.
     #[inline]
     pub const fn has_capacity(&self, bits: u16, refs: u8) -> bool {
-        self.inner.bit_len + bits <= MAX_BIT_LEN
+        bits <= MAX_BIT_LEN - self.inner.bit_len
             && self.references.len() + refs as usize <= MAX_REF_COUNT
     }
 
@@ -852,7 +852,7 @@ impl CellDataBuilder {
     /// Returns true if there is enough remaining capacity to fit `bits`.
     #[inline]
     pub const fn has_capacity_bits(&self, bits: u16) -> bool {
-        self.bit_len + bits <= MAX_BIT_LEN
+        bits <= MAX_BIT_LEN - self.bit_len
     }
 
     /// Clears all data bits and sets the size in bits to 0.
@@ -894,7 +894,7 @@ impl CellDataBuilder {
     /// Tries to store the specified number of zero bits in the cell,
     /// returning `false` if there is not enough remaining capacity.
     pub fn store_zeros(&mut self, bits: u16) -> Result<(), Error> {
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= MAX_BIT_LEN - self.bit_len {
             self.bit_len += bits;
             Ok(())
         } else {
@@ -1052,7 +1052,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= MAX_BIT_LEN - self.bit_len {
             bits = if let Some(offset) = bits.checked_sub(8) {
                 self.bit_len += offset;
                 8
@@ -1095,7 +1095,7 @@ impl CellDataBuilder {
             return Ok(());
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= MAX_BIT_LEN - self.bit_len {
             // Store zeros if bits is greater than 64
             bits = if let Some(offset) = bits.checked_sub(64) {
                 self.bit_len += offset;
@@ -1382,7 +1382,7 @@ impl CellDataBuilder {
             store_raw(data, bit_len, value, bits)
         }
 
-        if self.bit_len + bits <= MAX_BIT_LEN {
+        if bits <= MAX_BIT_LEN - self.bit_len {
             let mut data = [0; 128];
             let mut bit_len = 0;
             ok!(store_raw_impl(&mut data, &mut bit_len, value, bits));
@@ -1408,7 +1408,7 @@ fn store_raw(
     value: &[u8],
     mut bits: u16,
 ) -> Result<(), Error> {
-    if *bit_len + bits <= MAX_BIT_LEN {
+    if bits <= MAX_BIT_LEN - *bit_len {
         let max_bit_len = value.len().saturating_mul(8) as u16;
         bits = if let Some(offset) = bits.checked_sub(max_bit_len) {
             *bit_len += offset;
-- 
2.43.0


From 866217e84d1c0999808daa502c3532c8069851ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:46 +0000
Subject: [PATCH 02/75] fix: store_raw truncates the length of long inputs

---
 src/cell/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 020df77..893a4f4 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -1409,7 +1409,7 @@ fn store_raw(
     mut bits: u16,
 ) -> Result<(), Error> {
     if bits <= MAX_BIT_LEN - *bit_len {
-        let max_bit_len = value.len().saturating_mul(8) as u16;
+        let max_bit_len = std::cmp::min(value.len().saturating_mul(8), u16::MAX as usize) as u16;
         bits = if let Some(offset) = bits.checked_sub(max_bit_len) {
             *bit_len += offset;
             max_bit_len
-- 
2.43.0


From a079aad3ef6d63e74b6c08e269a0907580818cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 03/75] fix: CellSlice::get_raw ignores the offset in the
 window check

---
 src/cell/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 2749882..bcbe94a 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -1645,7 +1645,7 @@ impl<'a> CellSlice<'a> {
             return Ok(&mut target[..0]);
         }
 
-        if self.range.bits_start + bits <= self.range.bits_end {
+        if self.range.bits_start + offset + bits <= self.range.bits_end {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
-- 
2.43.0


From e4bd73f7fa737057d0a88e21321ed9bce2309c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 04/75] fix: CellSlice window arithmetic overflows for large
 arguments

---
 src/cell/slice.rs | 60 +++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index bcbe94a..29db1ea 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -367,14 +367,18 @@ impl CellSliceRange {
 
     /// Returns true if the slice contains at least `bits` and `refs`.
     pub const fn has_remaining(&self, bits: u16, refs: u8) -> bool {
-        self.bits_start + bits <= self.bits_end && self.refs_start + refs <= self.refs_end
+        self.bits_start.saturating_add(bits) <= self.bits_end
+            && self.refs_start.saturating_add(refs) <= self.refs_end
+    }
+
+    /// Returns true if there are at least `bits` after the `offset` (relative to the window start).
+    const fn has_bits_at(&self, offset: u16, bits: u16) -> bool {
+        self.bits_start.saturating_add(offset).saturating_add(bits) <= self.bits_end
     }
 
     /// Tries to advance the start of data and refs windows.
     pub fn skip_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -385,9 +389,7 @@ impl CellSliceRange {
 
     /// Leaves only the first `bits` and `refs` in the slice.
     pub fn only_first(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -398,9 +400,7 @@ impl CellSliceRange {
 
     /// Removes the last `bits` and `refs` from the slice.
     pub fn skip_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -411,9 +411,7 @@ impl CellSliceRange {
 
     /// Leaves only the last `bits` and `refs` in the slice.
     pub fn only_last(&mut self, bits: u16, refs: u8) -> Result<(), Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -426,9 +424,7 @@ impl CellSliceRange {
     /// of data and refs windows.
     #[must_use = "use `skip_first` if you don't need the result"]
     pub fn split_prefix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -443,9 +439,7 @@ impl CellSliceRange {
     /// Returns the last `bits` and `refs` of the slice and shrinks the data and refs windows.
     #[must_use = "use `skip_last` if you don't need the result"]
     pub fn split_suffix(&mut self, bits: u16, refs: u8) -> Result<Self, Error> {
-        if unlikely(
-            self.bits_start + bits > self.bits_end || self.refs_start + refs > self.refs_end,
-        ) {
+        if unlikely(!self.has_remaining(bits, refs)) {
             return Err(Error::CellUnderflow);
         }
 
@@ -462,9 +456,9 @@ impl CellSliceRange {
     pub fn get_prefix(&self, bits: u16, refs: u8) -> Self {
         Self {
             bits_start: self.bits_start,
-            bits_end: std::cmp::min(self.bits_start + bits, self.bits_end),
+            bits_end: std::cmp::min(self.bits_start.saturating_add(bits), self.bits_end),
             refs_start: self.refs_start,
-            refs_end: std::cmp::min(self.refs_start + refs, self.refs_end),
+            refs_end: std::cmp::min(self.refs_start.saturating_add(refs), self.refs_end),
         }
     }
 
@@ -1161,7 +1155,7 @@ impl<'a> CellSlice<'a> {
 
     /// Tries to read the bit at the specified offset (relative to the current bits window).
     pub fn get_bit(&self, offset: u16) -> Result<bool, Error> {
-        if self.range.bits_start + offset < self.range.bits_end {
+        if self.range.has_bits_at(offset, 1) {
             let index = self.range.bits_start + offset;
             if let Some(byte) = self.cell.data().get((index / 8) as usize) {
                 return Ok((byte >> (7 - index % 8)) & 1 != 0);
@@ -1196,7 +1190,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u16` starting from the `offset`.
     pub fn get_u16(&self, offset: u16) -> Result<u16, Error> {
-        if self.range.bits_start + offset + 16 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 16) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1246,7 +1240,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u32` starting from the `offset`.
     pub fn get_u32(&self, offset: u16) -> Result<u32, Error> {
-        if self.range.bits_start + offset + 32 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 32) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1296,7 +1290,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u64` starting from the `offset`.
     pub fn get_u64(&self, offset: u16) -> Result<u64, Error> {
-        if self.range.bits_start + offset + 64 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 64) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1343,7 +1337,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads `u128` starting from the `offset`.
     pub fn get_u128(&self, offset: u16) -> Result<u128, Error> {
-        if self.range.bits_start + offset + 128 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 128) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1386,7 +1380,7 @@ impl<'a> CellSlice<'a> {
 
     /// Reads 32 bytes starting from the `offset`.
     pub fn get_u256(&self, offset: u16) -> Result<HashBytes, Error> {
-        if self.range.bits_start + offset + 256 <= self.range.bits_end {
+        if self.range.has_bits_at(offset, 256) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1452,7 +1446,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 8 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 8 && self.range.has_bits_at(offset, bits) {
             let index = self.range.bits_start + offset;
 
             let r = index % 8;
@@ -1506,7 +1500,7 @@ impl<'a> CellSlice<'a> {
             return Ok(0);
         }
 
-        if bits <= 64 && self.range.bits_start + offset + bits <= self.range.bits_end {
+        if bits <= 64 && self.range.has_bits_at(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1645,7 +1639,7 @@ impl<'a> CellSlice<'a> {
             return Ok(&mut target[..0]);
         }
 
-        if self.range.bits_start + offset + bits <= self.range.bits_end {
+        if self.range.has_bits_at(offset, bits) {
             let index = self.range.bits_start + offset;
             let data = self.cell.data();
             let data_len = data.len();
@@ -1742,7 +1736,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns a reference to the Nth child cell (relative to this slice's refs window).
     pub fn get_reference(&self, index: u8) -> Result<&'a DynCell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1752,7 +1746,7 @@ impl<'a> CellSlice<'a> {
 
     /// Returns the Nth child cell (relative to this slice's refs window).
     pub fn get_reference_cloned(&self, index: u8) -> Result<Cell, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             if let Some(cell) = self.cell.reference_cloned(self.range.refs_start + index) {
                 return Ok(cell);
             }
@@ -1763,7 +1757,7 @@ impl<'a> CellSlice<'a> {
     /// Tries to load the specified child cell as slice.
     /// Returns an error if the loaded cell is absent or is pruned.
     pub fn get_reference_as_slice(&self, index: u8) -> Result<CellSlice<'a>, Error> {
-        if self.range.refs_start + index < self.range.refs_end {
+        if index < self.range.size_refs() {
             let Some(cell) = self.cell.reference(self.range.refs_start + index) else {
                 return Err(Error::CellUnderflow);
             };
-- 
2.43.0


From 066f589be3ce0ac4766ac21c88087eebdff47026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 05/75] fix: encode_to_writer does not count the checksum in
 its size assertion

---
 src/boc/ser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index 6ed6a48..d7f4d47 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -243,6 +243,7 @@ where
 
         if let Some(crc) = crc {
             ok!(writer.write_all(&crc.to_le_bytes()));
+            total_size += 4;
         }
 
         debug_assert_eq!(total_size, header.total_size);
-- 
2.43.0


From 67163d1ccb9d656236914c0261de8b9cba80b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 06/75] fix: without_hashes after adding roots leaves a wrong
 total size

---
 src/boc/ser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/boc/ser.rs b/src/boc/ser.rs
index d7f4d47..4342fa7 100644
--- a/src/boc/ser.rs
+++ b/src/boc/ser.rs
@@ -190,6 +190,12 @@ where
     #[inline]
     pub fn without_hashes(mut self, without_hashes: bool) -> Self {
         self.without_hashes = without_hashes;
+        // NOTE: Some roots could have been added before changing the flag
+        self.total_data_size = self
+            .rev_cells
+            .iter()
+            .map(|cell| cell.descriptor().byte_len_full(without_hashes))
+            .sum();
         self
     }
 
-- 
2.43.0


From d7160431d7bb458ab7f495d42a88e6fe477e8cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 07/75] fix: decoder requires room for a root list that indexed
 bags do not have

---
 src/boc/de.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index f0196ff..9c2009e 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -171,14 +171,15 @@ impl<'a> BocHeader<'a> {
             return Err(Error::InvalidTotalSize);
         }
 
-        // NOTE: `root_count` is in range ..=u32::MAX and `ref_size` is in range 1..=4
-        if unlikely(!reader.require(root_count * ref_size)) {
-            return Err(Error::UnexpectedEof);
-        }
-        debug_assert!(data.len() >= (6 + ref_size * 3 + offset_size + root_count * ref_size));
-
+        // NOTE: only generic BOCs have an explicit list of roots
         let mut roots = SmallVec::with_capacity(root_count);
         if supports_multiple_roots {
+            // NOTE: `root_count` is in range ..=u32::MAX and `ref_size` is in range 1..=4
+            if unlikely(!reader.require(root_count * ref_size)) {
+                return Err(Error::UnexpectedEof);
+            }
+            debug_assert!(data.len() >= (6 + ref_size * 3 + offset_size + root_count * ref_size));
+
             for _ in 0..root_count {
                 // SAFETY: we have already requested for {root_count}*{ref_size}
                 let root_index = unsafe { reader.read_next_be_uint_fast(data, ref_size) };
-- 
2.43.0


From fa1ade0437eb6cd6b401c11ffc1a4dd5f1bc050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 08/75] fix: ProcessedCells::get panics for an index out of
 range

---
 src/boc/de.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/boc/de.rs b/src/boc/de.rs
index 9c2009e..5370031 100644
--- a/src/boc/de.rs
+++ b/src/boc/de.rs
@@ -302,7 +302,8 @@ pub struct ProcessedCells(SmallVec<[Cell; CELLS_ON_STACK]>);
 impl ProcessedCells {
     /// Returns a processed cell by index.
     pub fn get(&self, index: u32) -> Option<Cell> {
-        self.0.get(self.0.len() - index as usize - 1).cloned()
+        let rev_index = self.0.len().checked_sub(index as usize + 1)?;
+        self.0.get(rev_index).cloned()
     }
 }
 
-- 
2.43.0


From 0f523e553ac549b3b66af9330d3b7fb0cfdcd5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 09/75] fix: signed RawValues order is decided by the label of
 the root

---
 src/dict/raw.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index d9c64c9..264a501 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1325,6 +1325,7 @@ impl<'a> RawValues<'a> {
             segments.push(ValuesSegment {
                 data,
                 remaining_bit_len: bit_len,
+                empty_prefix: false,
             });
         }
         Self {
@@ -1405,13 +1406,14 @@ impl<'a> Iterator for RawValues<'a> {
                         let remaining_bit_len = segment.remaining_bit_len;
                         let next_bit = (refs_offset != 0)
                             ^ reverse
-                            ^ (signed && is_root && segment.data.is_data_empty());
+                            ^ (signed && is_root && segment.empty_prefix);
                         let data = ok!(segment.data.cell().get_reference_as_slice(next_bit as u8));
                         segment.data.skip_first(0, 1).ok();
 
                         segments.push(ValuesSegment {
                             data,
                             remaining_bit_len,
+                            empty_prefix: false,
                         });
                         // SAFETY: we have just added a new element
                         break unsafe { segments.last_mut().unwrap_unchecked() };
@@ -1438,6 +1440,7 @@ impl<'a> Iterator for RawValues<'a> {
                             return Err(Error::CellUnderflow);
                         }
                         segment.remaining_bit_len = remaining - 1;
+                        segment.empty_prefix = prefix.is_data_empty();
                         // Handle next segment
                         continue;
                     }
@@ -1457,6 +1460,7 @@ impl<'a> Iterator for RawValues<'a> {
 struct ValuesSegment<'a> {
     data: CellSlice<'a>,
     remaining_bit_len: u16,
+    empty_prefix: bool,
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5566e3a6260809b31927d95ed6580c1c2c08f28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 10/75] fix: RawOwnedValues pairs value ranges with the wrong
 branch

---
 src/dict/raw.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dict/raw.rs b/src/dict/raw.rs
index 264a501..b6b2db9 100644
--- a/src/dict/raw.rs
+++ b/src/dict/raw.rs
@@ -1266,7 +1266,14 @@ impl Iterator for RawOwnedValues<'_> {
                     Some(segment) => {
                         let refs_offset = segment.data.offset_refs();
                         debug_assert!(refs_offset > 0);
-                        match segment.data.cell().reference_cloned(refs_offset - 1) {
+
+                        let next_bit = (refs_offset != 1)
+                            ^ self.inner.reversed
+                            ^ (self.inner.signed
+                                && self.inner.segments.len() == 1
+                                && segment.empty_prefix);
+
+                        match segment.data.cell().reference_cloned(next_bit as u8) {
                             Some(cell) => cell,
                             None => return Some(Err(self.inner.finish(Error::CellUnderflow))),
                         }
-- 
2.43.0


From 5a36159749a01c46ea03ffa314a2dc30cc660493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 11/75] fix: dict_merge refuses valid dictionaries and swallows
 errors

---
 src/dict/ops/split_merge.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/dict/ops/split_merge.rs b/src/dict/ops/split_merge.rs
index 923ad03..d7d5b66 100644
--- a/src/dict/ops/split_merge.rs
+++ b/src/dict/ops/split_merge.rs
@@ -151,25 +151,21 @@ pub fn dict_merge(
             *left = Some(right.clone());
             return Ok(());
         }
-        (Some(left_cell), Some(right_cell)) => {
-            let bit_len = left_cell.bit_len();
-            if bit_len != right_cell.bit_len() && bit_len != key_bit_length {
-                return Err(Error::InvalidCell); // KEY LENGTH ERROR?
-            }
-
-            let mut right_dict_iter = RawIter::new(right, key_bit_length);
-            while let Some(Ok((key, value))) = right_dict_iter.next() {
-                let current_bit_len = key.size_bits();
-
-                dict_insert(
-                    left,
+        (Some(_), Some(_)) => {
+            // NOTE: `left` must stay the same in case of an error.
+            let mut merged = left.clone();
+            for entry in RawIter::new(right, key_bit_length) {
+                let (key, value) = ok!(entry);
+                ok!(dict_insert(
+                    &mut merged,
                     &mut key.as_data_slice(),
-                    current_bit_len,
+                    key_bit_length,
                     &value,
                     SetMode::Set,
                     context,
-                )?;
+                ));
             }
+            *left = merged;
         }
     }
     Ok(())
-- 
2.43.0


From 836e485872377503b19a53f425191a54c1ad3fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:25 +0000
Subject: [PATCH 12/75] fix: dict_get_subdict reads labels with a wrong key
 length

---
 src/dict/ops/get.rs | 112 +++++++++++++++++++++-----------------------
 1 file changed, 53 insertions(+), 59 deletions(-)

diff --git a/src/dict/ops/get.rs b/src/dict/ops/get.rs
index 66d5551..60e7c7e 100644
--- a/src/dict/ops/get.rs
+++ b/src/dict/ops/get.rs
@@ -1,5 +1,5 @@
 use crate::cell::*;
-use crate::dict::{Branch, make_leaf, read_label, split_edge};
+use crate::dict::{make_leaf, read_label, split_edge};
 use crate::error::Error;
 
 /// Returns a `CellSlice` of the value corresponding to the key.
@@ -133,66 +133,60 @@ pub fn dict_get_subdict<'a: 'b, 'b, 'c: 'a>(
     prefix: &mut CellSlice<'b>,
     context: &'c dyn CellContext,
 ) -> Result<Option<Cell>, Error> {
-    match dict {
-        None => Ok(None),
-        Some(cell) => {
-            let prefix_len = prefix.size_bits();
-            if prefix_len == 0 || key_bit_len < prefix_len {
-                return Ok(Some(cell.clone()));
-            }
+    let Some(root) = dict else {
+        return Ok(None);
+    };
 
-            let mut data = match dict {
-                Some(data) => ok!(context
-                    .load_dyn_cell(data.as_ref(), LoadMode::Full)
-                    .and_then(CellSlice::new)),
-                None => return Ok(None),
-            };
-
-            // Try to find the required root
-            let subtree = loop {
-                // Read the key part written in the current edge
-                let label = &mut ok!(read_label(&mut data, prefix.size_bits()));
-                let lcp = prefix.longest_common_data_prefix(label);
-                match lcp.size_bits().cmp(&prefix.size_bits()) {
-                    std::cmp::Ordering::Equal => {
-                        // Found exact key
-                        let new_leaf = ok!(make_leaf(label, lcp.size_bits(), &data, context));
-                        break new_leaf;
-                    }
-                    std::cmp::Ordering::Less if lcp.size_bits() < label.size_bits() => {
-                        // Have to split edge
-                        let value = ok!(CellBuilder::new().build_ext(context));
-                        let split_edge =
-                            ok!(split_edge(&data, label, &lcp, prefix, &value, context));
-                        break split_edge;
-                    }
-                    std::cmp::Ordering::Less => {
-                        if data.cell().reference_count() < 2 {
-                            return Err(Error::CellUnderflow);
-                        }
-                        prefix.skip_first(lcp.size_bits(), 0).ok();
-                        let next_branch = match prefix.load_bit() {
-                            Ok(bit) => Branch::from(bit),
-                            Err(e) => return Err(e),
-                        };
-
-                        let child = match data.cell().reference(next_branch as u8) {
-                            // TODO: change mode to `LoadMode::UseGas` if copy-on-write for libraries is not ok
-                            Some(cell) => ok!(context
-                                .load_dyn_cell(cell, LoadMode::Full)
-                                .and_then(CellSlice::new)),
-                            None => return Err(Error::CellUnderflow),
-                        };
-                        data = child;
-                    }
-                    std::cmp::Ordering::Greater => {
-                        debug_assert!(false, "LCP of prefix and key can't be greater than key");
-                        unsafe { std::hint::unreachable_unchecked() };
-                    }
-                }
-            };
+    if prefix.is_data_empty() {
+        return Ok(Some(root.clone()));
+    } else if key_bit_len < prefix.size_bits() {
+        return Err(Error::CellUnderflow);
+    }
 
-            Ok(Some(subtree))
+    let mut data = ok!(context
+        .load_dyn_cell(root.as_ref(), LoadMode::Full)
+        .and_then(CellSlice::new));
+
+    // Try to find the required root
+    let mut remaining_bit_len = key_bit_len;
+    let mut path = CellDataBuilder::new();
+    loop {
+        // Read the key part written in the current edge
+        let label = &mut ok!(read_label(&mut data, remaining_bit_len));
+        let lcp = prefix.longest_common_data_prefix(label);
+        let lcp_len = lcp.size_bits();
+        ok!(path.store_slice_data(*label));
+
+        if lcp_len == prefix.size_bits() {
+            // All keys of this subtree start with the prefix
+            break;
+        } else if lcp_len < label.size_bits() {
+            // Have to split edge
+            let value = ok!(CellBuilder::new().build_ext(context));
+            return split_edge(&data, label, &lcp, prefix, &value, context).map(Some);
         }
+
+        if data.size_refs() < 2 {
+            return Err(Error::CellUnderflow);
+        }
+        remaining_bit_len = match remaining_bit_len.checked_sub(lcp_len + 1) {
+            Some(remaining) => remaining,
+            None => return Err(Error::CellUnderflow),
+        };
+
+        ok!(prefix.skip_first(lcp_len, 0));
+        let next_bit = ok!(prefix.load_bit());
+        ok!(path.store_bit(next_bit));
+
+        data = match data.cell().reference(next_bit as u8) {
+            // TODO: change mode to `LoadMode::UseGas` if copy-on-write for libraries is not ok
+            Some(cell) => ok!(context
+                .load_dyn_cell(cell, LoadMode::Full)
+                .and_then(CellSlice::new)),
+            None => return Err(Error::CellUnderflow),
+        };
     }
+
+    // Build a new root with the full path to the found subtree
+    make_leaf(&path.as_data_slice(), key_bit_len, &data, context).map(Some)
 }
-- 
2.43.0


From e6b50c166354a6326f3abd8d547efe8fb487191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 13/75] fix: Merkle proof builder reuses cells across Merkle
 depths

A cell which is reachable at different Merkle depths has different proof
cells (its pruned branches have different levels), but the cache was keyed
by the representation hash only, so the proof had a wrong root hash.
---
 src/merkle/proof.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index fdd25d9..f6abd3d 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -440,7 +440,7 @@ where
 struct BuilderImpl<'a, 'b, 'c: 'a> {
     root: &'a DynCell,
     filter: &'b dyn MerkleFilter,
-    cells: ahash::HashMap<&'a HashBytes, Cell>,
+    cells: ahash::HashMap<(&'a HashBytes, u8), Cell>,
     pruned_branches: Option<&'b mut ahash::HashSet<&'a HashBytes>>,
     context: &'c dyn CellContext,
     allow_different_root: bool,
@@ -478,7 +478,7 @@ impl BuilderImpl<'_, '_, '_> {
                 // Process children if they are left
 
                 let child_repr_hash = child.repr_hash();
-                let child = if let Some(child) = self.cells.get(child_repr_hash) {
+                let child = if let Some(child) = self.cells.get(&(child_repr_hash, last.merkle_depth)) {
                     // Reused processed cells
                     child.clone()
                 } else {
@@ -543,8 +543,12 @@ impl BuilderImpl<'_, '_, '_> {
                 builder.set_references(last.children);
                 let proof_cell = ok!(builder.build_ext(self.context));
 
-                // Save this cell as processed cell
-                self.cells.insert(cell.repr_hash(), proof_cell.clone());
+                // Save this cell as processed cell.
+                // NOTE: Pruned branches depend on the merkle depth, so the same cell
+                // can have different proof cells at different merkle depths.
+                let merkle_depth = last.merkle_depth - last.descriptor.is_merkle() as u8;
+                self.cells
+                    .insert((cell.repr_hash(), merkle_depth), proof_cell.clone());
 
                 match stack.last_mut() {
                     // Append this cell to the ancestor
@@ -566,7 +570,7 @@ impl BuilderImpl<'_, '_, '_> {
 struct ParBuilderImpl<'a, 'b, 'c: 'a> {
     root: &'a DynCell,
     filter: &'b (dyn MerkleFilter + Send + Sync),
-    cells: scc::HashMap<&'a HashBytes, ExtCell, ahash::RandomState>,
+    cells: scc::HashMap<(&'a HashBytes, u8), ExtCell, ahash::RandomState>,
     pruned_branches: Option<&'b scc::HashSet<&'a HashBytes, ahash::RandomState>>,
     context: &'c (dyn CellContext + Send + Sync),
     split_at: ahash::HashSet<HashBytes>,
@@ -689,7 +693,7 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                 // Process children if they are left
                 let child_repr_hash = child.repr_hash();
 
-                let child = if let Some(child) = self.cells.get(child_repr_hash) {
+                let child = if let Some(child) = self.cells.get(&(child_repr_hash, last.merkle_depth)) {
                     // Reused processed cells
                     child.clone()
                 } else {
@@ -785,8 +789,13 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                     }
                 };
 
-                // Save this cell as processed cell
-                self.cells.insert(cell.repr_hash(), proof_cell.clone()).ok();
+                // Save this cell as processed cell.
+                // NOTE: Pruned branches depend on the merkle depth, so the same cell
+                // can have different proof cells at different merkle depths.
+                let merkle_depth = last.merkle_depth - last.descriptor.is_merkle() as u8;
+                self.cells
+                    .insert((cell.repr_hash(), merkle_depth), proof_cell.clone())
+                    .ok();
 
                 match stack.last_mut() {
                     // Append this cell to the ancestor
-- 
2.43.0


From 476180c9612cc13b81312c7bf6f6d24c4abc1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:18 +0000
Subject: [PATCH 14/75] fix: pruned branches and Merkle proofs overflow on
 deeply nested Merkle cells

---
 src/merkle/proof.rs         | 10 +++++++---
 src/merkle/pruned_branch.rs |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index f6abd3d..605e760 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -515,7 +515,9 @@ impl BuilderImpl<'_, '_, '_> {
                         // All other cells will be included in a different branch
                         _ => {
                             // Add merkle offset to the current merkle depth
-                            let merkle_depth = last.merkle_depth + descriptor.is_merkle() as u8;
+                            let merkle_depth = last
+                                .merkle_depth
+                                .saturating_add(descriptor.is_merkle() as u8);
 
                             // Push child node and start processing its references
                             stack.push(Node {
@@ -684,7 +686,7 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
         stack.push(Node {
             references: child.references(),
             descriptor: root_descriptor,
-            merkle_depth: parent_merkle_depth + root_descriptor.is_merkle() as u8,
+            merkle_depth: parent_merkle_depth.saturating_add(root_descriptor.is_merkle() as u8),
             children: ChildrenBuilder::Ordinary(Default::default()),
         });
 
@@ -746,7 +748,9 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                             }
 
                             // Add merkle offset to the current merkle depth
-                            let merkle_depth = last.merkle_depth + descriptor.is_merkle() as u8;
+                            let merkle_depth = last
+                                .merkle_depth
+                                .saturating_add(descriptor.is_merkle() as u8);
 
                             // Push child node and start processing its references
                             stack.push(Node {
diff --git a/src/merkle/pruned_branch.rs b/src/merkle/pruned_branch.rs
index 5b285e6..c41608a 100644
--- a/src/merkle/pruned_branch.rs
+++ b/src/merkle/pruned_branch.rs
@@ -7,6 +7,11 @@ pub fn make_pruned_branch(
     merkle_depth: u8,
     context: &dyn CellContext,
 ) -> Result<Cell, Error> {
+    // There are no levels for deeper pruned branches.
+    if merkle_depth >= LevelMask::MAX_LEVEL {
+        return Err(Error::InvalidCell);
+    }
+
     let descriptor = cell.descriptor();
     let mut cell_level_mask = descriptor.level_mask();
 
-- 
2.43.0


From 9848b6850939f6af7ae5fc70e4079c818388e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 15/75] fix: Merkle update traversal overflows on deeply nested
 Merkle cells

---
 src/merkle/update.rs | 57 +++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index 7c78fc2..fefad80 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -165,9 +165,9 @@ impl MerkleUpdate {
         }
 
         impl Applier<'_> {
-            fn run(&mut self, cell: &DynCell, merkle_depth: u8) -> Result<Cell, Error> {
+            fn run(&mut self, cell: &DynCell, merkle_depth: u16) -> Result<Cell, Error> {
                 let descriptor = cell.descriptor();
-                let child_merkle_depth = merkle_depth + descriptor.cell_type().is_merkle() as u8;
+                let child_merkle_depth = merkle_depth + descriptor.cell_type().is_merkle() as u16;
 
                 // Start building a new cell
                 let mut result = CellBuilder::new();
@@ -181,7 +181,9 @@ impl MerkleUpdate {
                     let child = if child_descriptor.is_pruned_branch() {
                         // Replace pruned branches with old cells
                         let mask = child_descriptor.level_mask();
-                        if mask.to_byte() & (1 << child_merkle_depth) != 0 {
+                        if child_merkle_depth < LevelMask::MAX_LEVEL as u16
+                            && mask.to_byte() & (1 << child_merkle_depth) != 0
+                        {
                             // Use original hash for pruned branches
                             let child_hash = child.as_ref().hash(mask.level() - 1);
                             match self.old_cells.get(child_hash) {
@@ -193,7 +195,7 @@ impl MerkleUpdate {
                         }
                     } else {
                         // Build a child cell if it hasn't been built before
-                        let child_hash = child.as_ref().hash(child_merkle_depth);
+                        let child_hash = child.as_ref().hash(to_level(child_merkle_depth));
                         if let Some(child) = self.new_cells.get(child_hash) {
                             child.clone()
                         } else {
@@ -222,11 +224,11 @@ impl MerkleUpdate {
             let mut old_cells = ahash::HashMap::default();
 
             // Insert root
-            let mut merkle_depth = 0u8;
+            let mut merkle_depth = 0u16;
 
             visited.insert(old.repr_hash());
-            old_cells.insert(*old.hash(merkle_depth), old.clone());
-            merkle_depth += old.descriptor().is_merkle() as u8;
+            old_cells.insert(*old.hash(to_level(merkle_depth)), old.clone());
+            merkle_depth += old.descriptor().is_merkle() as u16;
             let mut stack = vec![old.references()];
 
             'outer: while let Some(iter) = stack.last_mut() {
@@ -236,7 +238,7 @@ impl MerkleUpdate {
                         continue;
                     }
 
-                    let hash = child_ref.hash(merkle_depth);
+                    let hash = child_ref.hash(to_level(merkle_depth));
                     if !old_cell_hashes.contains(hash) {
                         // Skip new cells
                         continue;
@@ -246,14 +248,14 @@ impl MerkleUpdate {
                     old_cells.insert(*hash, child);
 
                     // Increase the current merkle depth if needed
-                    merkle_depth += child_ref.descriptor().is_merkle() as u8;
+                    merkle_depth += child_ref.descriptor().is_merkle() as u16;
                     // And proceed to processing this child
                     stack.push(child_ref.references());
                     continue 'outer;
                 }
 
                 // Decrease the current merkle depth if needed
-                merkle_depth -= iter.cell().descriptor().is_merkle() as u8;
+                merkle_depth -= iter.cell().descriptor().is_merkle() as u16;
                 // And return to the previous depth
                 stack.pop();
             }
@@ -298,7 +300,7 @@ impl MerkleUpdate {
         {
             // TODO: check if `new_cells` set can be used instead of `visited`
             let mut visited = ahash::HashSet::default();
-            let mut merkle_depth = self.new.descriptor().is_merkle() as u8;
+            let mut merkle_depth = self.new.descriptor().is_merkle() as u16;
             let mut stack = vec![self.new.references()];
 
             visited.insert(self.new.repr_hash());
@@ -311,7 +313,7 @@ impl MerkleUpdate {
                     }
 
                     // Track new cells
-                    new_cells.insert(child.hash(merkle_depth));
+                    new_cells.insert(child.hash(to_level(merkle_depth)));
 
                     // Unchanged cells (as pruned branches) must be presented in the old tree
                     let descriptor = child.descriptor();
@@ -320,13 +322,13 @@ impl MerkleUpdate {
                     }
 
                     // Increase the current merkle depth if needed
-                    merkle_depth += descriptor.is_merkle() as u8;
+                    merkle_depth += descriptor.is_merkle() as u16;
                     // And proceed to processing this child
                     stack.push(child.references());
                     continue 'outer;
                 }
 
-                merkle_depth -= iter.cell().descriptor().is_merkle() as u8;
+                merkle_depth -= iter.cell().descriptor().is_merkle() as u16;
                 stack.pop();
             }
 
@@ -374,12 +376,12 @@ impl MerkleUpdate {
         let mut old_cells = ahash::HashSet::default();
 
         // Traverse old cells
-        let mut merkle_depth = 0u8;
+        let mut merkle_depth = 0u16;
 
         // Insert root
         visited.insert(self.old.repr_hash());
-        old_cells.insert(self.old.hash(merkle_depth));
-        merkle_depth += self.old.descriptor().is_merkle() as u8;
+        old_cells.insert(self.old.hash(to_level(merkle_depth)));
+        merkle_depth += self.old.descriptor().is_merkle() as u16;
         let mut stack = vec![self.old.references()];
 
         'outer: while let Some(iter) = stack.last_mut() {
@@ -389,7 +391,7 @@ impl MerkleUpdate {
                 }
 
                 // Store cell with original merkle depth
-                old_cells.insert(child.hash(merkle_depth));
+                old_cells.insert(child.hash(to_level(merkle_depth)));
 
                 // Skip children for pruned branches
                 let descriptor = child.descriptor();
@@ -398,14 +400,14 @@ impl MerkleUpdate {
                 }
 
                 // Increase the current merkle depth if needed
-                merkle_depth += descriptor.is_merkle() as u8;
+                merkle_depth += descriptor.is_merkle() as u16;
                 // And proceed to processing this child
                 stack.push(child.references());
                 continue 'outer;
             }
 
             // Decrease the current merkle depth if needed
-            merkle_depth -= iter.cell().descriptor().is_merkle() as u8;
+            merkle_depth -= iter.cell().descriptor().is_merkle() as u16;
             // And return to the previous depth
             stack.pop();
         }
@@ -418,7 +420,7 @@ impl MerkleUpdate {
         visited.clear();
         visited.insert(self.new.repr_hash());
         stack.push(self.new.references());
-        merkle_depth += self.new.descriptor().is_merkle() as u8;
+        merkle_depth += self.new.descriptor().is_merkle() as u16;
 
         'outer: while let Some(iter) = stack.last_mut() {
             for child in &mut *iter {
@@ -430,14 +432,14 @@ impl MerkleUpdate {
                 // Unchanged cells (as pruned branches) must be presented in the old tree
                 let descriptor = child.descriptor();
                 if descriptor.is_pruned_branch() {
-                    if descriptor.level_mask().level() == merkle_depth + 1
-                        && !old_cells.contains(child.hash(merkle_depth))
+                    if descriptor.level_mask().level() as u16 == merkle_depth + 1
+                        && !old_cells.contains(child.hash(to_level(merkle_depth)))
                     {
                         return Err(Error::InvalidData);
                     }
                 } else {
                     // Increase the current merkle depth if needed
-                    merkle_depth += descriptor.is_merkle() as u8;
+                    merkle_depth += descriptor.is_merkle() as u16;
                     // And proceed to processing this child
                     stack.push(child.references());
                     continue 'outer;
@@ -445,7 +447,7 @@ impl MerkleUpdate {
             }
 
             // Decrease the current merkle depth if needed
-            merkle_depth -= iter.cell().descriptor().is_merkle() as u8;
+            merkle_depth -= iter.cell().descriptor().is_merkle() as u16;
             // And return to the previous depth
             stack.pop();
         }
@@ -457,6 +459,11 @@ impl MerkleUpdate {
     }
 }
 
+/// Hashes and depths of a cell are the same for all levels starting from the max one.
+fn to_level(merkle_depth: u16) -> u8 {
+    merkle_depth.min(LevelMask::MAX_LEVEL as u16) as u8
+}
+
 /// Helper struct to build a Merkle update.
 pub struct MerkleUpdateBuilder<'a, F> {
     old: &'a DynCell,
-- 
2.43.0


From 05ae6ded1a855224096f39fd7749ef7df3438759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 16/75] fix: virtualizing a virtualized cell loses levels in
 children and owned views

---
 src/cell/cell_impl/mod.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/cell/cell_impl/mod.rs b/src/cell/cell_impl/mod.rs
index 28fa2eb..0786dc8 100644
--- a/src/cell/cell_impl/mod.rs
+++ b/src/cell/cell_impl/mod.rs
@@ -643,25 +643,23 @@ where
     }
 
     fn reference(&self, index: u8) -> Option<&DynCell> {
-        Some(self.0.as_ref().reference(index)?.virtualize())
+        self.0.as_ref().virtualize().reference(index)
     }
 
     fn reference_cloned(&self, index: u8) -> Option<Cell> {
-        Some(Cell::virtualize(self.0.as_ref().reference_cloned(index)?))
+        self.0.as_ref().virtualize().reference_cloned(index)
     }
 
     fn virtualize(&self) -> &DynCell {
-        self.0.as_ref().virtualize()
+        self.0.as_ref().virtualize().virtualize()
     }
 
     fn hash(&self, level: u8) -> &HashBytes {
-        let cell = self.0.as_ref();
-        cell.hash(virtual_hash_index(cell.descriptor(), level, 0))
+        self.0.as_ref().virtualize().hash(level)
     }
 
     fn depth(&self, level: u8) -> u16 {
-        let cell = self.0.as_ref();
-        cell.depth(virtual_hash_index(cell.descriptor(), level, 0))
+        self.0.as_ref().virtualize().depth(level)
     }
 
     fn take_first_child(&mut self) -> Option<Cell> {
@@ -720,11 +718,11 @@ where
     }
 
     fn reference(&self, index: u8) -> Option<&DynCell> {
-        dyn_reference_virtualize(&self.0, index)
+        dyn_reference_virtualize(&self.0, index, L)
     }
 
     fn reference_cloned(&self, index: u8) -> Option<Cell> {
-        dyn_reference_virtualize_cloned(&self.0, index)
+        dyn_reference_virtualize_cloned(&self.0, index, L)
     }
 
     fn virtualize(&self) -> &DynCell {
@@ -760,13 +758,21 @@ where
 }
 
 #[inline(never)]
-fn dyn_reference_virtualize(cell: &DynCell, index: u8) -> Option<&DynCell> {
-    Some(cell.reference(index)?.virtualize())
+fn dyn_reference_virtualize(cell: &DynCell, index: u8, level: u8) -> Option<&DynCell> {
+    let mut child = cell.reference(index)?.virtualize();
+    for _ in 0..level {
+        child = child.virtualize();
+    }
+    Some(child)
 }
 
 #[inline(never)]
-fn dyn_reference_virtualize_cloned(cell: &DynCell, index: u8) -> Option<Cell> {
-    Some(Cell::virtualize(cell.reference_cloned(index)?))
+fn dyn_reference_virtualize_cloned(cell: &DynCell, index: u8, level: u8) -> Option<Cell> {
+    let mut child = Cell::virtualize(cell.reference_cloned(index)?);
+    for _ in 0..level {
+        child = Cell::virtualize(child);
+    }
+    Some(child)
 }
 
 const unsafe fn virtualize_into_next_wrapper<
-- 
2.43.0


From 2bdb87d9387a08ea167f78000914cafc4bc9e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 17/75] fix: SplitDepth accepts values above its maximum

---
 src/num/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/num/mod.rs b/src/num/mod.rs
index d71246b..968254a 100644
--- a/src/num/mod.rs
+++ b/src/num/mod.rs
@@ -935,8 +935,8 @@ impl SplitDepth {
     #[inline]
     pub const fn new(value: u8) -> Result<Self, Error> {
         match NonZeroU8::new(value) {
-            Some(value) => Ok(Self(value)),
-            None => Err(Error::IntOverflow),
+            Some(value) if value.get() <= Self::MAX.0.get() => Ok(Self(value)),
+            _ => Err(Error::IntOverflow),
         }
     }
 
-- 
2.43.0


From 74d057133fb4c6a8379f04611a02e2f6afc8ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 18/75] fix: VarUint248 addition drops the high word of the
 left operand

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index b798eb0..fc5f9c4 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -461,7 +461,7 @@ impl std::ops::AddAssign<&Self> for VarUint248 {
     fn add_assign(&mut self, rhs: &Self) {
         let (lo, carry) = self.low().overflowing_add(*rhs.low());
         *self.low_mut() = lo;
-        *self.high_mut() = rhs
+        *self.high_mut() = self
             .high()
             .wrapping_add(carry as _)
             .wrapping_add(*rhs.high());
-- 
2.43.0


From d33f728bc0d40734e6d90d3f76f08a191b46f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 19/75] fix: VarUint248::MIN is not the smallest value

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index fc5f9c4..16ce26e 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -20,7 +20,7 @@ impl VarUint248 {
     pub const ONE: Self = Self([1, 0]);
 
     /// The smallest value that can be represented by this integer type.
-    pub const MIN: Self = Self::new(1);
+    pub const MIN: Self = Self::ZERO;
 
     /// The largest value that can be represented by this integer type.
     pub const MAX: Self = Self::from_words(u128::MAX >> 8, u128::MAX);
-- 
2.43.0


From c5175f28b971271659a912d6272b316b02621266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:47 +0000
Subject: [PATCH 20/75] fix: VarUint248 parses texts of values above 248 bits

---
 src/num/varuint248.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index 16ce26e..d759699 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -1272,7 +1272,7 @@ fn from_str_radix(
 
     let mut result = VarUint248::ZERO;
 
-    if radix <= 16 && digits.len() <= 64 {
+    if radix <= 16 && digits.len() <= 62 {
         for &c in digits {
             result *= radix as u128;
             let Some(x) = (c as char).to_digit(radix) else {
-- 
2.43.0


From 5a3827b4ca6f3b42eb47e8fef647726b8f7dcd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 21/75] fix: big integer bit sizes are truncated to 16 bits

---
 src/cell/builder.rs |  4 +++-
 src/util.rs         | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 893a4f4..92aa992 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -1290,7 +1290,9 @@ impl CellDataBuilder {
         x: &num_bigint::BigUint,
         len_bits: u16,
     ) -> Result<(), Error> {
-        let bits = x.bits() as u16;
+        use crate::util::BigIntExt;
+
+        let bits = x.bitsize(false);
         let bytes = bits.div_ceil(8);
         if bytes >= (1 << len_bits) {
             return Err(Error::IntOverflow);
diff --git a/src/util.rs b/src/util.rs
index 6c3b701..ecef3e9 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -21,17 +21,17 @@ pub trait BigIntExt {
 #[cfg(feature = "bigint")]
 impl BigIntExt for num_bigint::BigInt {
     fn bitsize(&self, signed: bool) -> u16 {
-        let mut bits = self.bits() as u16;
+        let mut bits = self.bits().min(u16::MAX as u64) as u16;
         if signed {
             match self.sign() {
                 num_bigint::Sign::NoSign => bits,
-                num_bigint::Sign::Plus => bits + 1,
+                num_bigint::Sign::Plus => bits.saturating_add(1),
                 num_bigint::Sign::Minus => {
                     // Check if `int` magnitude is not a power of 2
                     let mut digits = self.iter_u64_digits().rev();
                     if let Some(hi) = digits.next() {
                         if !hi.is_power_of_two() || !digits.all(|digit| digit == 0) {
-                            bits += 1;
+                            bits = bits.saturating_add(1);
                         }
                     }
                     bits
@@ -50,8 +50,8 @@ impl BigIntExt for num_bigint::BigInt {
 #[cfg(feature = "bigint")]
 impl BigIntExt for num_bigint::BigUint {
     fn bitsize(&self, signed: bool) -> u16 {
-        let bits = self.bits() as u16;
-        bits + (signed && bits != 0) as u16
+        let bits = self.bits().min(u16::MAX as u64) as u16;
+        bits.saturating_add((signed && bits != 0) as u16)
     }
 
     fn has_correct_sign(&self, _: bool) -> bool {
-- 
2.43.0


From b2264c3db996b5f787090cc436e2d952f849697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:01 +0000
Subject: [PATCH 22/75] fix: negative integers are stored as unsigned without
 their sign

---
 src/cell/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 92aa992..17484b0 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -1162,7 +1162,7 @@ impl CellDataBuilder {
         use crate::util::BigIntExt;
 
         let int_bits = x.bitsize(signed);
-        if int_bits > bits {
+        if int_bits > bits || !x.has_correct_sign(signed) {
             return Err(Error::IntOverflow);
         }
         self.store_bigint_truncate(x, bits, signed)
@@ -1275,7 +1275,7 @@ impl CellDataBuilder {
 
         let bits = x.bitsize(signed);
         let bytes = bits.div_ceil(8);
-        if bytes >= (1 << len_bits) {
+        if bytes >= (1 << len_bits) || !x.has_correct_sign(signed) {
             return Err(Error::IntOverflow);
         }
 
-- 
2.43.0


From dbd29fd6687c1565a39356de8d9913e4faa21707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 23/75] fix: storing variable length integers truncates or
 half-writes their length

---
 src/cell/builder.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/cell/builder.rs b/src/cell/builder.rs
index 17484b0..a383675 100644
--- a/src/cell/builder.rs
+++ b/src/cell/builder.rs
@@ -1275,12 +1275,19 @@ impl CellDataBuilder {
 
         let bits = x.bitsize(signed);
         let bytes = bits.div_ceil(8);
-        if bytes >= (1 << len_bits) || !x.has_correct_sign(signed) {
+        if (len_bits < 16 && bytes >= (1 << len_bits)) || !x.has_correct_sign(signed) {
             return Err(Error::IntOverflow);
         }
 
-        ok!(self.store_small_uint(bytes as u8, len_bits));
-        self.store_bigint_truncate(x, bytes * 8, signed)
+        let Some(value_bits) = bytes.checked_mul(8) else {
+            return Err(Error::CellOverflow);
+        };
+        if !self.has_capacity_bits(len_bits.saturating_add(value_bits)) {
+            return Err(Error::CellOverflow);
+        }
+
+        ok!(self.store_uint(bytes as u64, len_bits));
+        self.store_bigint_truncate(x, value_bits, signed)
     }
 
     /// Loads variable length [`BigInt`] to the builder.
@@ -1294,12 +1301,19 @@ impl CellDataBuilder {
 
         let bits = x.bitsize(false);
         let bytes = bits.div_ceil(8);
-        if bytes >= (1 << len_bits) {
+        if len_bits < 16 && bytes >= (1 << len_bits) {
             return Err(Error::IntOverflow);
         }
 
-        ok!(self.store_small_uint(bytes as u8, len_bits));
-        self.store_biguint_truncate(x, bytes * 8)
+        let Some(value_bits) = bytes.checked_mul(8) else {
+            return Err(Error::CellOverflow);
+        };
+        if !self.has_capacity_bits(len_bits.saturating_add(value_bits)) {
+            return Err(Error::CellOverflow);
+        }
+
+        ok!(self.store_uint(bytes as u64, len_bits));
+        self.store_biguint_truncate(x, value_bits)
     }
 
     /// Tries to store bytes in the cell (but only the specified number of bits),
-- 
2.43.0


From b0c20496f7686a867d6389e864f51a5a6f86a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 24/75] fix: loading variable length integers overflows on
 large lengths

---
 src/cell/slice.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cell/slice.rs b/src/cell/slice.rs
index 29db1ea..d9a61bd 100644
--- a/src/cell/slice.rs
+++ b/src/cell/slice.rs
@@ -1617,15 +1617,21 @@ impl<'a> CellSlice<'a> {
         len_bits: u16,
         signed: bool,
     ) -> Result<num_bigint::BigInt, Error> {
-        let len = self.load_uint(len_bits)? as u16;
-        self.load_bigint(len * 8, signed)
+        let len = self.load_uint(len_bits)?;
+        let Some(bits) = len.checked_mul(8).and_then(|bits| bits.try_into().ok()) else {
+            return Err(Error::CellUnderflow);
+        };
+        self.load_bigint(bits, signed)
     }
 
     /// Loads variable length unsigned int from the slice.
     #[cfg(feature = "bigint")]
     pub fn load_var_biguint(&mut self, len_bits: u16) -> Result<num_bigint::BigUint, Error> {
-        let len = self.load_uint(len_bits)? as u16;
-        self.load_biguint(len * 8)
+        let len = self.load_uint(len_bits)?;
+        let Some(bits) = len.checked_mul(8).and_then(|bits| bits.try_into().ok()) else {
+            return Err(Error::CellUnderflow);
+        };
+        self.load_biguint(bits)
     }
 
     /// Reads the specified number of bits to the target starting from the `offset`.
-- 
2.43.0


From 1d27e09e51545ebaeec4bd6516f18f8dab297902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 25/75] fix: clamping a currency to a zero amount stores a zero
 entry

---
 src/models/currency.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/currency.rs b/src/models/currency.rs
index b560314..9acba34 100644
--- a/src/models/currency.rs
+++ b/src/models/currency.rs
@@ -314,7 +314,11 @@ impl ExtraCurrencyCollection {
                 // so we must update to the lowest balance.
                 Some(other_balance) => {
                     if balance > other_balance {
-                        ok!(result.0.set(currency_id, other_balance));
+                        if other_balance.is_zero() {
+                            ok!(result.0.remove_raw(currency_id));
+                        } else {
+                            ok!(result.0.set(currency_id, other_balance));
+                        }
                     }
                 }
                 // Other collection doesn't have this currency,
-- 
2.43.0


From f3b2d91e9c00291b998b9c6a405310cdb851a0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 26/75] fix: ShardIdent::is_ancestor_of ignores bits of the
 prefix

---
 src/models/block/block_id.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index e2698e6..0964a17 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -316,7 +316,7 @@ impl ShardIdent {
         let ancestor_tag = self.prefix_tag();
         let shard_tag = shard.prefix_tag();
         ancestor_tag >= shard_tag
-            && ((self.prefix ^ shard.prefix) & (self.prefix_tag_mask() << 1)) == 0
+            && ((self.prefix ^ shard.prefix) & ((!ancestor_tag + 1) << 1)) == 0
     }
 
     /// Returns `true` if the current shard is the direct parent of the specified shard.
-- 
2.43.0


From 4f6bae0354f401dcc50037b5628c97a1d5b9fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 27/75] fix: shard identifiers are loaded from malformed data

---
 src/models/block/block_id.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index 0964a17..78fca7d 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -491,9 +491,11 @@ impl<'a> Load<'a> for ShardIdent {
         let prefix_without_tag = ok!(slice.load_u64());
 
         let tag = 1u64 << (63 - prefix_len);
-        let prefix = (prefix_without_tag & (!tag + 1)) | tag;
+        if prefix_without_tag & (tag | (tag - 1)) != 0 {
+            return Err(Error::InvalidData);
+        }
 
-        Ok(Self { workchain, prefix })
+        Self::new(workchain, prefix_without_tag | tag).ok_or(Error::InvalidData)
     }
 }
 
-- 
2.43.0


From 43accc61018eea5842a1aafb9e60a20cc096d41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:29 +0000
Subject: [PATCH 28/75] fix: shard identifiers are parsed from texts with extra
 parts

---
 src/models/block/block_id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/models/block/block_id.rs b/src/models/block/block_id.rs
index 78fca7d..d8fc76e 100644
--- a/src/models/block/block_id.rs
+++ b/src/models/block/block_id.rs
@@ -523,7 +523,11 @@ impl FromStr for ShardIdent {
             return Err(ParseBlockIdError::InvalidShardIdent);
         };
 
-        Ok(shard)
+        if parts.next().is_none() {
+            Ok(shard)
+        } else {
+            Err(ParseBlockIdError::UnexpectedPart)
+        }
     }
 }
 
-- 
2.43.0


From 12348d3ff316fb5d2d3307a66e02b44947c6183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 29/75] fix: StdAddr::from_str_ext accepts the base64 alphabet
 that is not allowed

---
 src/models/message/address.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/message/address.rs b/src/models/message/address.rs
index 470acc0..5319b84 100644
--- a/src/models/message/address.rs
+++ b/src/models/message/address.rs
@@ -280,6 +280,11 @@ impl StdAddr {
                 let mut buffer = [0u8; 36];
 
                 let base64_url = s.contains(['_', '-']);
+                if base64_url && !format.allow_base64_url
+                    || !format.allow_base64 && s.contains(['+', '/'])
+                {
+                    return Err(ParseAddrError::BadFormat);
+                }
 
                 let Ok(36) = if base64_url {
                     BASE64_URL_SAFE
-- 
2.43.0


From 7a29cb7f2ff5a521ee55609d5eb092f3ea2f0f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 30/75] fix: StdAddr::from_str_ext accepts base64 texts with
 any tag byte

---
 src/models/message/address.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/models/message/address.rs b/src/models/message/address.rs
index 5319b84..70fb695 100644
--- a/src/models/message/address.rs
+++ b/src/models/message/address.rs
@@ -303,6 +303,11 @@ impl StdAddr {
                     }
                 }
 
+                // Only "testnet" and "non-bounceable" bits can be changed in the tag
+                if buffer[0] & 0x3f != 0x11 {
+                    return Err(ParseAddrError::BadFormat);
+                }
+
                 let addr = StdAddr::new(
                     buffer[1] as i8,
                     HashBytes(buffer[2..34].try_into().unwrap()),
-- 
2.43.0


From b39e2dadf7753210f24485a9588665ce25e8e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:35 +0000
Subject: [PATCH 31/75] fix: shards which are not a partition are accepted when
 some are left over

---
 src/models/block/shard_hashes.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index 8a13927..0734ef9 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -202,7 +202,11 @@ impl WorkchainShardHashes {
 
         let first = ok!(read_shard(shards, cx));
         if first.0.is_full() {
-            return Ok(first.1);
+            return if shards.len() == 0 {
+                Ok(first.1)
+            } else {
+                Err(Error::Unbalanced)
+            };
         }
 
         if first.0.is_right_child() {
@@ -239,7 +243,12 @@ impl WorkchainShardHashes {
 
                 // Break if parent shard is a root
                 if parent_shard.is_full() {
-                    return Ok(parent_cell);
+                    // All shards must be a part of the tree
+                    return if stack.is_empty() && shards.len() == 0 {
+                        Ok(parent_cell)
+                    } else {
+                        Err(Error::Unbalanced)
+                    };
                 }
 
                 // Otherwise use parent shard as next child
-- 
2.43.0


From 0cd96f2a229cb55f19000455216cfd4f6bafec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:20 +0000
Subject: [PATCH 32/75] fix: a shards tree with an empty root is listed as an
 empty tree

---
 src/models/block/shard_hashes.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/models/block/shard_hashes.rs b/src/models/block/shard_hashes.rs
index 0734ef9..63a6b13 100755
--- a/src/models/block/shard_hashes.rs
+++ b/src/models/block/shard_hashes.rs
@@ -808,20 +808,21 @@ pub struct WorkchainShardsTreeRawIter<'a> {
     leaf: Option<CellSlice<'a>>,
     segments: Vec<IterSegment<'a>>,
     status: IterStatus,
+    root_error: Option<Error>,
 }
 
 impl<'a> WorkchainShardsTreeRawIter<'a> {
     /// Creates an iterator over the raw entries of a shards tree in a single workchain.
     pub fn new(workchain: i32, root: &'a DynCell) -> Self {
-        let status = 'error: {
+        let root_error = 'error: {
             let mut slice = match root.as_slice() {
                 Ok(slice) => slice,
-                Err(_) => break 'error IterStatus::UnexpectedCell,
+                Err(e) => break 'error e,
             };
 
             let is_fork = match slice.load_bit() {
                 Ok(bit) => bit,
-                Err(_) => break 'error IterStatus::Broken,
+                Err(e) => break 'error e,
             };
 
             let mut result = Self {
@@ -829,6 +830,7 @@ impl<'a> WorkchainShardsTreeRawIter<'a> {
                 leaf: None,
                 segments: Vec::new(),
                 status: IterStatus::Valid,
+                root_error: None,
             };
 
             if is_fork {
@@ -848,7 +850,8 @@ impl<'a> WorkchainShardsTreeRawIter<'a> {
             workchain,
             leaf: None,
             segments: Vec::new(),
-            status,
+            status: IterStatus::Broken,
+            root_error: Some(root_error),
         }
     }
 
@@ -871,12 +874,7 @@ impl<'a> Iterator for WorkchainShardsTreeRawIter<'a> {
         }
 
         if unlikely(!self.status.is_valid()) {
-            return if self.status.is_unexpected_cell() {
-                self.status = IterStatus::Broken;
-                Some(Err(Error::UnexpectedExoticCell))
-            } else {
-                None
-            };
+            return self.root_error.take().map(Err);
         }
 
         let leaf = match self.leaf.take() {
-- 
2.43.0


From 85eaf65437adee280bd4554ca3a027548ff50a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 33/75] fix: ADNL address of a validator with a masterchain
 seqno is lost when stored

---
 src/models/config/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 694a0e9..d67cf82 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1431,7 +1431,7 @@ impl Store for ValidatorDescription {
         ok!(builder.store_u64(self.weight));
 
         let mut adnl = self.adnl_addr.as_ref();
-        if with_mc_seqno {
+        if with_mc_seqno && adnl.is_none() {
             adnl = Some(HashBytes::wrap(&[0; 32]));
         }
 
-- 
2.43.0


From 0c69e4777dfaf4ee48b7ef5e9ceab970b866d6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 34/75] fix: round candidates of a consensus config are
 truncated when stored

---
 src/models/config/params.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index d67cf82..8987d58 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1016,10 +1016,13 @@ impl ConsensusConfig {
 impl Store for ConsensusConfig {
     fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
         let flags = self.new_catchain_ids as u8;
+        let Ok(round_candidates) = u8::try_from(self.round_candidates.get()) else {
+            return Err(Error::IntOverflow);
+        };
 
         ok!(builder.store_u8(Self::TAG_V2));
         ok!(builder.store_u8(flags));
-        ok!(builder.store_u8(self.round_candidates.get() as u8));
+        ok!(builder.store_u8(round_candidates));
         ok!(builder.store_u32(self.next_candidate_delay_ms));
         ok!(builder.store_u32(self.consensus_timeout_ms));
         ok!(builder.store_u32(self.fast_attempts));
-- 
2.43.0


From 094cc86aedb2a7fc82ed52f18784b0e9f4579234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:44 +0000
Subject: [PATCH 35/75] fix: root cells are counted in storage stats without
 checking the limit

---
 src/cell/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 5027ef7..6eef9ee 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -1670,6 +1670,10 @@ impl<'a> StorageStat<'a> {
             return true;
         }
 
+        if self.stats.cell_count >= self.limit as u64 {
+            return false;
+        }
+
         self.stats.bit_count += cell.bit_len() as u64;
         self.stats.cell_count += 1;
 
-- 
2.43.0


From bbf474d7c180f3545efbef4ea85c6589c89075dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 36/75] fix: HashBytes parser panics on or accepts any two byte
 prefix

---
 src/cell/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cell/mod.rs b/src/cell/mod.rs
index 6eef9ee..01b8754 100644
--- a/src/cell/mod.rs
+++ b/src/cell/mod.rs
@@ -808,7 +808,10 @@ impl FromStr for HashBytes {
                 }
             }
             66 => {
-                if let Err(e) = hex::decode_to_slice(&s[2..], &mut result.0) {
+                let Some(s) = s.strip_prefix("0x") else {
+                    return Err(ParseHashBytesError::UnexpectedStringLength);
+                };
+                if let Err(e) = hex::decode_to_slice(s, &mut result.0) {
                     return Err(ParseHashBytesError::InvalidHex(e));
                 }
             }
-- 
2.43.0


From 5aa3716cc70c1fd7b5e9c58b5e6b66e7fe26d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 37/75] fix: base64 text of 31 bytes is parsed as a hash

---
 src/util.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index ecef3e9..8595d70 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -146,9 +146,12 @@ pub(crate) fn decode_base64_slice<T: AsRef<[u8]>>(
         data: &[u8],
         target: &mut [u8],
     ) -> Result<(), base64::DecodeSliceError> {
-        base64::engine::general_purpose::STANDARD
-            .decode_slice(data, target)
-            .map(|_| ())
+        let len = base64::engine::general_purpose::STANDARD.decode_slice(data, target)?;
+        if len == target.len() {
+            Ok(())
+        } else {
+            Err(base64::DecodeError::InvalidLength(data.len()).into())
+        }
     }
     decode_base64_slice_impl(data.as_ref(), target)
 }
-- 
2.43.0


From 93154a66952e5f24479562654c2cbedb2477771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 38/75] fix: hex text of 1021 to 1023 bits cannot be parsed
 back

---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 8595d70..8cca428 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -374,16 +374,16 @@ impl Bitstring<'_> {
             }
         }
 
-        if !s.is_ascii() || s.len() > 128 * 2 {
-            return Err(Error::InvalidData);
-        }
-
         let s = s.as_bytes();
         let (mut s, with_tag) = match s.strip_suffix(b"_") {
             Some(s) => (s, true),
             None => (s, false),
         };
 
+        if !s.is_ascii() || s.len() > 128 * 2 {
+            return Err(Error::InvalidData);
+        }
+
         let mut half_byte = None;
         if s.len() % 2 != 0 {
             if let Some((last, prefix)) = s.split_last() {
-- 
2.43.0


From 11279584c186cfe20aef8ef9e20140f289dba763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 39/75] fix: integers above 248 bits are read from binary serde
 formats

---
 src/num/varuint248.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/num/varuint248.rs b/src/num/varuint248.rs
index d759699..e250af6 100644
--- a/src/num/varuint248.rs
+++ b/src/num/varuint248.rs
@@ -394,7 +394,15 @@ impl<'de> serde::Deserialize<'de> for VarUint248 {
         if deserializer.is_human_readable() {
             deserializer.deserialize_str(VarUint248Visitor)
         } else {
-            <_>::deserialize(deserializer).map(Self)
+            let res = Self(ok!(<_>::deserialize(deserializer)));
+            if res.is_valid() {
+                Ok(res)
+            } else {
+                Err(Error::invalid_type(
+                    Unexpected::Other("big number"),
+                    &VarUint248Visitor,
+                ))
+            }
         }
     }
 }
-- 
2.43.0


From af5f5650c67d87a9e6ee2f4e42f1bd585a179599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:44 +0000
Subject: [PATCH 40/75] fix: external address is read from binary serde formats
 with data of another length

---
 src/models/message/address.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/models/message/address.rs b/src/models/message/address.rs
index 70fb695..86d7f3a 100644
--- a/src/models/message/address.rs
+++ b/src/models/message/address.rs
@@ -951,6 +951,9 @@ impl<'de> serde::Deserialize<'de> for ExtAddr {
             deserializer.deserialize_str(ExtAddrVisitor)
         } else {
             <(u16, Vec<u8>)>::deserialize(deserializer).and_then(|(data_bit_len, data)| {
+                if data.len() != data_bit_len.div_ceil(8) as usize {
+                    return Err(Error::custom("invalid external address data length"));
+                }
                 ExtAddr::new(data_bit_len, data)
                     .ok_or_else(|| Error::custom("invalid external address data length"))
             })
-- 
2.43.0


From c735bb16b666abc8fa4ba47911d774ef69cd05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 41/75] fix: keep the sign of non-negative ABI varint values
 whose top bit is set

A varint was written with the bytes of its magnitude, so values like
varint16 200 were read back as negative ones. The size reserved for a
negative value that needs an extra sign byte was one byte short.
---
 src/abi/value/ser.rs | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 1b81a32..cd0d4eb 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -111,10 +111,15 @@ impl AbiValue {
     }
 
     fn compute_exact_size_short(&self) -> Size {
-        fn compute_varuint_size(n: &NonZeroU8, value: &BigUint) -> Size {
+        fn compute_varuint_size(
+            n: &NonZeroU8,
+            is_signed: bool,
+            sign: Sign,
+            value: &BigUint,
+        ) -> Size {
             let value_bytes: u8 = n.get() - 1;
             let len_bits = (8 - value_bytes.leading_zeros()) as u16;
-            let value_bits = std::cmp::max(8, 8 * value.bits().div_ceil(8) as u16);
+            let value_bits = 8 * to_bytes_be(is_signed, sign, value).len() as u16;
             Size {
                 bits: len_bits + value_bits,
                 refs: 0,
@@ -123,8 +128,10 @@ impl AbiValue {
 
         match self {
             Self::Uint(n, _) | Self::Int(n, _) => Size { bits: *n, refs: 0 },
-            Self::VarUint(n, value) => compute_varuint_size(n, value),
-            Self::VarInt(n, value) => compute_varuint_size(n, value.magnitude()),
+            Self::VarUint(n, value) => compute_varuint_size(n, false, Sign::Plus, value),
+            Self::VarInt(n, value) => {
+                compute_varuint_size(n, true, value.sign(), value.magnitude())
+            }
             Self::Bool(_) => Size { bits: 1, refs: 0 },
             Self::Cell(_)
             | Self::Bytes(_)
@@ -359,8 +366,10 @@ impl AbiSerializer {
         match value {
             AbiValue::Uint(n, value) => self.write_uint(*n, value),
             AbiValue::Int(n, value) => self.write_int(*n, value),
-            AbiValue::VarUint(n, value) => self.write_varint(*n, Sign::Plus, value),
-            AbiValue::VarInt(n, value) => self.write_varint(*n, value.sign(), value.magnitude()),
+            AbiValue::VarUint(n, value) => self.write_varint(*n, false, Sign::Plus, value),
+            AbiValue::VarInt(n, value) => {
+                self.write_varint(*n, true, value.sign(), value.magnitude())
+            }
             AbiValue::Bool(value) => self.write_bool(*value),
             AbiValue::Cell(value) => self.write_cell(value),
             AbiValue::Address(value) => self.write_address(value),
@@ -397,9 +406,14 @@ impl AbiSerializer {
         target.store_bigint(value, bits, true)
     }
 
-    fn write_varint(&mut self, size: NonZeroU8, sign: Sign, value: &BigUint) -> Result<(), Error> {
-        let is_negative = sign == Sign::Minus;
-        let bytes = to_signed_bytes_be(is_negative, value);
+    fn write_varint(
+        &mut self,
+        size: NonZeroU8,
+        is_signed: bool,
+        sign: Sign,
+        value: &BigUint,
+    ) -> Result<(), Error> {
+        let bytes = to_bytes_be(is_signed, sign, value);
 
         let max_value_size = size.get() - 1;
         if bytes.len() > max_value_size as usize {
@@ -648,7 +662,7 @@ impl AbiSerializer {
     }
 }
 
-fn to_signed_bytes_be(is_negative: bool, value: &BigUint) -> Vec<u8> {
+fn to_bytes_be(is_signed: bool, sign: Sign, value: &BigUint) -> Vec<u8> {
     #[inline]
     fn is_zero(value: &u8) -> bool {
         *value == 0
@@ -679,10 +693,15 @@ fn to_signed_bytes_be(is_negative: bool, value: &BigUint) -> Vec<u8> {
         bytes
     }
 
-    if is_negative {
+    if sign == Sign::Minus {
         negative_to_signed_bytes_be(value)
     } else {
-        value.to_bytes_be()
+        let mut bytes = value.to_bytes_be();
+        if is_signed && bytes.first().is_some_and(|byte| *byte > 0x7f) {
+            // msb used by magnitude, extend by 1 byte
+            bytes.insert(0, 0);
+        }
+        bytes
     }
 }
 
-- 
2.43.0


From 9fbb1d02a421276cf3ed44a8db5875029939699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 42/75] fix: reserve a reference of an empty ABI map only when
 maximum sizes are used

For versions before 2.2 the reference was counted while writing but not
while reserving, so the layout was not the prescribed one and a tuple
of four references could not be encoded at all.
---
 src/abi/value/ser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index cd0d4eb..73ee34a 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -588,7 +588,13 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let target = self.require_builder(Size { bits: 1, refs: 1 });
+        let refs = if self.version.use_max_size() {
+            1
+        } else {
+            !value.is_empty() as u8
+        };
+
+        let target = self.require_builder(Size { bits: 1, refs });
         dict.store_into(target, context)
     }
 
-- 
2.43.0


From 96fb220ae02c36707926c5deb7f60bbeff7bad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:10 +0000
Subject: [PATCH 43/75] fix: a fixed ABI array occupies one bit

Two bits were required for it while writing, so a value which exactly
fits was moved to the next cell.
---
 src/abi/value/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 73ee34a..bfd4d8f 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -534,7 +534,7 @@ impl AbiSerializer {
             key_builder.clear_bits();
         }
 
-        let bits = 1 + if fixed_len { 1 } else { 32 };
+        let bits = 1 + if fixed_len { 0 } else { 32 };
         let refs = if self.version.use_max_size() {
             1
         } else {
-- 
2.43.0


From c96c922757dea4eb942065eb5ad17876513a4764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 44/75] fix: no underflow after an ABI value whose maximum size
 exceeds a cell

Encoding anything after a varuint129 or longer with ABI 2.2+ panicked (or
wrapped the remaining size around in release builds).
---
 src/abi/value/ser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index bfd4d8f..891b6d8 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -307,7 +307,11 @@ impl AbiSerializer {
 
         self.remaining_total -= value_size;
 
-        let remaining = Size::MAX - self.current;
+        // NOTE: The maximum size of some types is greater than the size of a cell.
+        let remaining = Size {
+            bits: Size::MAX.bits.saturating_sub(self.current.bits),
+            refs: Size::MAX.refs.saturating_sub(self.current.refs),
+        };
 
         let store_inline = if value_size.bits > remaining.bits || value_size.refs > remaining.refs {
             false
-- 
2.43.0


From 23f70e30f2c1345d0d7ebb98352095d0adac75fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 45/75] fix: refuse ABI arrays with missing items

An array with fewer items than its announced length, or with gaps between
indices, was decoded as a shorter one, and memory for the announced length
(up to 2^32 items) was allocated before looking at the items.
---
 src/abi/value/de.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 1c79741..57ce7c8 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -476,14 +476,27 @@ fn load_array_raw(
     ok!(preload_bits(1, slice));
     let dict = RawDict::<32>::load_from(slice)?;
 
-    let mut result = Vec::with_capacity(len);
-    for value in dict.values().take(len) {
-        let slice = &mut value?;
+    let mut result = Vec::new();
+    for entry in dict.iter().take(len) {
+        let (key, mut slice) = entry?;
+        anyhow::ensure!(
+            key.as_data_slice().load_u32()? as usize == result.len(),
+            AbiError::ArraySizeMismatch {
+                expected: len,
+                len: result.len()
+            }
+        );
+
+        let slice = &mut slice;
         let value = ok!(AbiValue::load_ext(ty, version, true, allow_partial, slice));
         ok!(AbiValue::check_remaining(slice, allow_partial));
         result.push(value);
     }
 
+    anyhow::ensure!(result.len() == len, AbiError::ArraySizeMismatch {
+        expected: len,
+        len: result.len()
+    });
     Ok(result)
 }
 
@@ -505,12 +518,7 @@ fn load_fixed_array(
     allow_partial: bool,
     slice: &mut CellSlice,
 ) -> Result<Vec<AbiValue>> {
-    let values = ok!(load_array_raw(ty, len, version, allow_partial, slice));
-    anyhow::ensure!(values.len() == len, AbiError::ArraySizeMismatch {
-        expected: len,
-        len: values.len()
-    });
-    Ok(values)
+    load_array_raw(ty, len, version, allow_partial, slice)
 }
 
 fn load_map(
-- 
2.43.0


From 847a63e8a986996d3d116f20a32fbafdcd8dd368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:34 +0000
Subject: [PATCH 46/75] fix: refuse ABI map values with leftover data

Array items, optionals and references already do.
---
 src/abi/value/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 57ce7c8..b13554a 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -544,6 +544,7 @@ fn load_map(
             allow_partial,
             &mut slice
         ));
+        ok!(AbiValue::check_remaining(&mut slice, allow_partial));
         result.insert(key, value);
     }
 
-- 
2.43.0


From 34ef23e03dec0d12b6d26a7114a5023c354932aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 47/75] fix: decode big ABI array items and map values which
 start with a reference

For ABI version 1 the reference to a value moved to a separate cell was
taken for the first reference of the value.
---
 src/abi/value/de.rs  | 14 ++++++++++++++
 src/abi/value/ser.rs |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index b13554a..c3ea941 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -5,6 +5,7 @@ use anyhow::Result;
 use bytes::Bytes;
 use num_bigint::{BigInt, BigUint};
 
+use super::ser::fits_into_dict_leaf;
 use crate::abi::error::AbiError;
 use crate::abi::{
     AbiHeader, AbiHeaderType, AbiType, AbiValue, AbiVersion, NamedAbiType, NamedAbiValue,
@@ -488,6 +489,7 @@ fn load_array_raw(
         );
 
         let slice = &mut slice;
+        ok!(unwrap_dict_value(32, ty, slice));
         let value = ok!(AbiValue::load_ext(ty, version, true, allow_partial, slice));
         ok!(AbiValue::check_remaining(slice, allow_partial));
         result.push(value);
@@ -500,6 +502,17 @@ fn load_array_raw(
     Ok(result)
 }
 
+/// Values that might not fit into a dict leaf are stored in a separate cell.
+fn unwrap_dict_value(key_bits: u16, ty: &AbiType, slice: &mut CellSlice) -> Result<()> {
+    if !fits_into_dict_leaf(key_bits, ty.max_bits())
+        && slice.is_data_empty()
+        && slice.size_refs() == 1
+    {
+        *slice = slice.load_reference_as_slice()?;
+    }
+    Ok(())
+}
+
 fn load_array(
     ty: &AbiType,
     version: AbiVersion,
@@ -537,6 +550,7 @@ fn load_map(
     for entry in dict::RawIter::new(&dict, key_bits) {
         let (key, mut slice) = entry?;
         let key = PlainAbiValue::load(key_ty, &mut key.as_data_slice())?;
+        ok!(unwrap_dict_value(key_bits, value_ty, &mut slice));
         let value = ok!(AbiValue::load_ext(
             value_ty,
             version,
diff --git a/src/abi/value/ser.rs b/src/abi/value/ser.rs
index 891b6d8..bed6567 100644
--- a/src/abi/value/ser.rs
+++ b/src/abi/value/ser.rs
@@ -715,7 +715,7 @@ fn to_bytes_be(is_signed: bool, sign: Sign, value: &BigUint) -> Vec<u8> {
     }
 }
 
-const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
+pub(super) const fn fits_into_dict_leaf(key_bits: u16, value_bits: usize) -> bool {
     // NOTE: Label offset is calculated as 2 bits for tag + max ceil(log2(key_bits)).
     // However this might be incorrect as we have other parts of the label to store.
     const LABEL_OFFSET: usize = 12;
-- 
2.43.0


From cbf70caf0f090dc5929474bbffbe3bf2f640009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 48/75] fix: do not read ABI bytes from exotic cells

The representation of a pruned branch was returned as a part of bytes
or of a string.
---
 src/abi/value/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index c3ea941..3019d77 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -432,6 +432,7 @@ fn load_bytes_raw(version: AbiVersion, last: bool, slice: &mut CellSlice) -> Res
     let mut bytes = Vec::new();
     loop {
         anyhow::ensure!(cell.bit_len() % 8 == 0, AbiError::ExpectedCellWithBytes);
+        anyhow::ensure!(!cell.is_exotic(), Error::UnexpectedExoticCell);
         bytes.extend_from_slice(cell.data());
 
         match cell.reference(0) {
-- 
2.43.0


From 72173a17a17989879fd7781968cac668c0808d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 49/75] fix: check types of items inside of ABI containers

Only the declared type of an array, a map or an optional was compared, so
values of any other type passed the check of function and event inputs
and were encoded.
---
 src/abi/value/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/abi/value/mod.rs b/src/abi/value/mod.rs
index 6ac32d2..7b9e8d0 100644
--- a/src/abi/value/mod.rs
+++ b/src/abi/value/mod.rs
@@ -196,12 +196,22 @@ impl AbiValue {
             (Self::VarInt(n, _), AbiType::VarInt(t)) => n == t,
             (Self::FixedBytes(bytes), AbiType::FixedBytes(len)) => bytes.len() == *len,
             (Self::Tuple(items), AbiType::Tuple(types)) => NamedAbiValue::have_types(items, types),
-            (Self::Array(ty, _), AbiType::Array(t)) => ty == t,
+            (Self::Array(ty, items), AbiType::Array(t)) => {
+                ty == t && items.iter().all(|item| item.has_type(t))
+            }
             (Self::FixedArray(ty, items), AbiType::FixedArray(t, len)) => {
-                items.len() == *len && ty == t
+                items.len() == *len && ty == t && items.iter().all(|item| item.has_type(t))
+            }
+            (Self::Map(key_ty, value_ty, items), AbiType::Map(k, v)) => {
+                key_ty == k
+                    && value_ty == v
+                    && items
+                        .iter()
+                        .all(|(key, value)| key.has_type(k) && value.has_type(v))
+            }
+            (Self::Optional(ty, value), AbiType::Optional(t)) => {
+                ty == t && value.as_ref().is_none_or(|value| value.has_type(t))
             }
-            (Self::Map(key_ty, value_ty, _), AbiType::Map(k, v)) => key_ty == k && value_ty == v,
-            (Self::Optional(ty, _), AbiType::Optional(t)) => ty == t,
             (Self::Ref(value), AbiType::Ref(t)) => value.has_type(t),
             (Self::Bool(_), AbiType::Bool)
             | (Self::Cell(_), AbiType::Cell)
-- 
2.43.0


From 367a3ca91603b61c2344d72545ca40c30b7c7c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:22 +0000
Subject: [PATCH 50/75] fix: refuse ABI varints which are longer than their
 type

When the number of bytes is not one less than a power of two, a longer
value which cannot be encoded back was accepted.
---
 src/abi/value/de.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/value/de.rs b/src/abi/value/de.rs
index 3019d77..5ee928a 100644
--- a/src/abi/value/de.rs
+++ b/src/abi/value/de.rs
@@ -404,6 +404,7 @@ fn load_varuint_raw(size: NonZeroU8, slice: &mut CellSlice) -> Result<Vec<u8>> {
     ok!(preload_bits(len_bits, slice));
 
     let value_bytes = slice.load_small_uint(len_bits)? as usize;
+    anyhow::ensure!(value_bytes <= value_size as usize, Error::IntOverflow);
     let value_bits = (value_bytes * 8) as u16;
     ok!(preload_bits(value_bits, slice));
 
-- 
2.43.0


From 1e9ebe9c30e565e42f141fea3ff1e39b222ee87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:27 +0000
Subject: [PATCH 51/75] fix: keep the payload when signing ABI v1 calls

---
 src/abi/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 637cb99..e00df78 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -1214,8 +1214,8 @@ impl UnsignedBody {
                 }
                 None => builder.store_bit_zero()?,
             }
-            builder.store_slice(self.payload.as_slice()?)?;
         }
+        builder.store_slice(self.payload.as_slice()?)?;
 
         builder.build().map_err(From::from)
     }
-- 
2.43.0


From d45a5040c0f316991b401f5d01b55e7cd83b86a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:27 +0000
Subject: [PATCH 52/75] fix: store input id before headers in ABI v1 calls

---
 src/abi/contract.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index e00df78..0ecec3f 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -749,6 +749,11 @@ impl<'a> ExternalInput<'_, 'a> {
             .expire_at
             .unwrap_or((time / 1000) as u32 + DEFAULT_TIMEOUT_SEC);
 
+        // NOTE: The first version stores input id before headers
+        if abi_version.major == 1 {
+            serializer.write_value(&input_id, context)?;
+        }
+
         for header in self.function.headers.as_ref() {
             serializer.write_header_value(&match header {
                 AbiHeaderType::Time => AbiHeader::Time(time),
@@ -759,7 +764,9 @@ impl<'a> ExternalInput<'_, 'a> {
             })?;
         }
 
-        serializer.write_value(&input_id, context)?;
+        if abi_version.major != 1 {
+            serializer.write_value(&input_id, context)?;
+        }
         serializer.write_tuple(self.tokens, context)?;
 
         let payload = serializer.finalize(context)?.build_ext(context)?;
-- 
2.43.0


From a2c14fcfab73660bfd494649406133f6fb1a3e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:27 +0000
Subject: [PATCH 53/75] fix: overflow of the default expiration time of ABI
 calls

---
 src/abi/contract.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index 0ecec3f..aaf6209 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -745,9 +745,11 @@ impl<'a> ExternalInput<'_, 'a> {
         }
 
         let time = self.time.unwrap_or_else(now_ms);
-        let expire_at = self
-            .expire_at
-            .unwrap_or((time / 1000) as u32 + DEFAULT_TIMEOUT_SEC);
+        let expire_at = self.expire_at.unwrap_or_else(|| {
+            u32::try_from(time / 1000)
+                .unwrap_or(u32::MAX)
+                .saturating_add(DEFAULT_TIMEOUT_SEC)
+        });
 
         // NOTE: The first version stores input id before headers
         if abi_version.major == 1 {
-- 
2.43.0


From 12158b64dd9d7fd4d15cc3aeccd265eed8f6fc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 54/75] fix: refuse signed sizes in ABI types

---
 src/abi/ty.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/abi/ty.rs b/src/abi/ty.rs
index 4eef0dd..875bcdd 100644
--- a/src/abi/ty.rs
+++ b/src/abi/ty.rs
@@ -554,8 +554,7 @@ impl AbiType {
             let len = if len.is_empty() {
                 None
             } else {
-                Some(ok!(len
-                    .parse::<usize>()
+                Some(ok!(parse_size::<usize>(len)
                     .map_err(ParseAbiTypeError::InvalidArrayLength)))
             };
 
@@ -576,24 +575,19 @@ impl AbiType {
             "tuple" => Self::Tuple(Arc::from([].as_slice())),
             _ => {
                 if let Some(s) = s.strip_prefix("uint") {
-                    Self::Uint(ok!(s
-                        .parse::<u16>()
+                    Self::Uint(ok!(parse_size::<u16>(s)
                         .map_err(ParseAbiTypeError::InvalidBitLen)))
                 } else if let Some(s) = s.strip_prefix("int") {
-                    Self::Int(ok!(s
-                        .parse::<u16>()
+                    Self::Int(ok!(parse_size::<u16>(s)
                         .map_err(ParseAbiTypeError::InvalidBitLen)))
                 } else if let Some(s) = s.strip_prefix("varuint") {
-                    Self::VarUint(ok!(s
-                        .parse::<NonZeroU8>()
+                    Self::VarUint(ok!(parse_size::<NonZeroU8>(s)
                         .map_err(ParseAbiTypeError::InvalidByteLen)))
                 } else if let Some(s) = s.strip_prefix("varint") {
-                    Self::VarInt(ok!(s
-                        .parse::<NonZeroU8>()
+                    Self::VarInt(ok!(parse_size::<NonZeroU8>(s)
                         .map_err(ParseAbiTypeError::InvalidByteLen)))
                 } else if let Some(s) = s.strip_prefix("fixedbytes") {
-                    Self::FixedBytes(ok!(s
-                        .parse::<usize>()
+                    Self::FixedBytes(ok!(parse_size::<usize>(s)
                         .map_err(ParseAbiTypeError::InvalidByteLen)))
                 } else if let Some(s) = s.strip_prefix("map(") {
                     let s = ok!(s
@@ -839,12 +833,10 @@ impl FromStr for PlainAbiType {
             "address" => Self::Address,
             s => {
                 if let Some(s) = s.strip_prefix("uint") {
-                    Self::Uint(ok!(s
-                        .parse::<u16>()
+                    Self::Uint(ok!(parse_size::<u16>(s)
                         .map_err(ParseAbiTypeError::InvalidBitLen)))
                 } else if let Some(s) = s.strip_prefix("int") {
-                    Self::Int(ok!(s
-                        .parse::<u16>()
+                    Self::Int(ok!(parse_size::<u16>(s)
                         .map_err(ParseAbiTypeError::InvalidBitLen)))
                 } else {
                     return Err(ParseAbiTypeError::UnknownType);
@@ -875,6 +867,14 @@ where
     serializer.collect_str(value)
 }
 
+fn parse_size<T>(s: &str) -> Result<T, std::num::ParseIntError>
+where
+    T: FromStr<Err = std::num::ParseIntError>,
+{
+    // NOTE: Integers are parsed with an optional sign which is not allowed in types.
+    T::from_str(if s.starts_with('+') { "+" } else { s })
+}
+
 #[cfg(test)]
 mod tests {
     use std::collections::BTreeMap;
-- 
2.43.0


From 3b781389aba4c6ae62dce78e8e1acbaec04c7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 55/75] fix: layout of unsigned ABI v1 calls

---
 src/abi/contract.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/contract.rs b/src/abi/contract.rs
index aaf6209..ffbd703 100644
--- a/src/abi/contract.rs
+++ b/src/abi/contract.rs
@@ -711,8 +711,11 @@ impl<'a> ExternalInput<'_, 'a> {
         let mut serializer = AbiSerializer::new(abi_version);
 
         serializer.add_offset(if abi_version.major == 1 {
-            // Reserve reference for signature
-            Size { bits: 0, refs: 1 }
+            // Reserve reference for signature (it is written explicitly if not reserved)
+            Size {
+                bits: 0,
+                refs: reserve_signature as _,
+            }
         } else {
             let bits = if abi_version >= AbiVersion::V2_3 {
                 // Reserve only for address as it also ensures the the signature will fit
-- 
2.43.0


From df805df1a102304c078f22ff48b547aa8ee234fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 56/75] fix: count the tag of message info in its size exactly
 once

---
 src/models/message/mod.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 81119df..13886f6 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -540,8 +540,8 @@ impl RelaxedMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     const fn bit_len(&self) -> u16 {
         match self {
-            Self::Int(info) => info.bit_len(),
-            Self::ExtOut(info) => info.bit_len(),
+            Self::Int(info) => 1 + info.bit_len(),
+            Self::ExtOut(info) => 2 + info.bit_len(),
         }
     }
 
@@ -742,9 +742,9 @@ impl MsgInfo {
     /// Returns the number of data bits that this struct occupies.
     const fn bit_len(&self) -> u16 {
         match self {
-            Self::Int(info) => info.bit_len(),
-            Self::ExtIn(info) => info.bit_len(),
-            Self::ExtOut(info) => info.bit_len(),
+            Self::Int(info) => 1 + info.bit_len(),
+            Self::ExtIn(info) => 2 + info.bit_len(),
+            Self::ExtOut(info) => 2 + info.bit_len(),
         }
     }
 
@@ -1042,7 +1042,7 @@ pub struct ExtInMsgInfo {
 impl ExtInMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        2 + compute_ext_addr_bit_len(&self.src)
+        compute_ext_addr_bit_len(&self.src)
             + self.dst.bit_len()
             + self.import_fee.unwrap_bit_len()
     }
@@ -1098,7 +1098,7 @@ pub struct ExtOutMsgInfo {
 impl ExtOutMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        2 + self.src.bit_len() + compute_ext_addr_bit_len(&self.dst) + 64 + 32
+        self.src.bit_len() + compute_ext_addr_bit_len(&self.dst) + 64 + 32
     }
 }
 
@@ -1151,7 +1151,7 @@ pub struct RelaxedExtOutMsgInfo {
 impl RelaxedExtOutMsgInfo {
     /// Returns the number of data bits that this struct occupies.
     pub const fn bit_len(&self) -> u16 {
-        2 + compute_opt_int_addr_bit_len(&self.src) + compute_ext_addr_bit_len(&self.dst) + 64 + 32
+        compute_opt_int_addr_bit_len(&self.src) + compute_ext_addr_bit_len(&self.dst) + 64 + 32
     }
 }
 
-- 
2.43.0


From 8390f063c159950eab6751131167712a3abb3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 57/75] fix: do not reserve a reference for an absent state
 init

---
 src/models/message/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/message/mod.rs b/src/models/message/mod.rs
index 13886f6..7b82468 100644
--- a/src/models/message/mod.rs
+++ b/src/models/message/mod.rs
@@ -413,7 +413,7 @@ impl MessageLayout {
         let mut total = l.info;
 
         // Append init bits and refs
-        if self.init_to_cell {
+        if self.init_to_cell && init.is_some() {
             total.refs += 1;
         } else {
             total.bits += l.init.bits;
-- 
2.43.0


From 39826f38cfcaf8a94fc69564674b4a8b8724946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 58/75] fix: store the intermediate address prefix length as a
 7-bit number

---
 src/models/message/envelope.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/models/message/envelope.rs b/src/models/message/envelope.rs
index 53c9316..e634fe1 100644
--- a/src/models/message/envelope.rs
+++ b/src/models/message/envelope.rs
@@ -113,9 +113,8 @@ impl<'a> Load<'a> for IntermediateAddr {
 }
 
 /// Destination prefix length whithin the same workchain.
-#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Store, Load)]
+#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
-#[tlb(validate_with = "Self::is_valid")]
 pub struct IntermediateAddrRegular {
     /// Destination address prefix length in bits.
     use_dest_bits: u8,
@@ -125,6 +124,9 @@ impl IntermediateAddrRegular {
     /// Full address prefix length in bits.
     pub const FULL_BITS: u8 = 96;
 
+    // (#<= 96) is a 7-bit uint
+    const BITS: u16 = 7;
+
     /// Returns whether the address prefix length is valid.
     pub const fn is_valid(&self) -> bool {
         self.use_dest_bits <= Self::FULL_BITS
@@ -153,6 +155,27 @@ impl IntermediateAddrRegular {
     }
 }
 
+impl Store for IntermediateAddrRegular {
+    fn store_into(&self, builder: &mut CellBuilder, _: &dyn CellContext) -> Result<(), Error> {
+        if !self.is_valid() {
+            return Err(Error::InvalidData);
+        }
+        builder.store_small_uint(self.use_dest_bits, Self::BITS)
+    }
+}
+
+impl<'a> Load<'a> for IntermediateAddrRegular {
+    fn load_from(slice: &mut CellSlice<'a>) -> Result<Self, Error> {
+        let res = Self {
+            use_dest_bits: ok!(slice.load_small_uint(Self::BITS)),
+        };
+        if !res.is_valid() {
+            return Err(Error::InvalidData);
+        }
+        Ok(res)
+    }
+}
+
 /// Address prefix with a basic workchain id.
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Load, Store)]
 #[cfg_attr(feature = "serde", derive(serde::Serialize))]
-- 
2.43.0


From 0e2a22beca9c9e4d0be55e92d88d3d9b1e6fd109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:30 +0000
Subject: [PATCH 59/75] fix: read the references of a value flow in the order
 they are stored

---
 src/models/block/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/block/mod.rs b/src/models/block/mod.rs
index ecf5e61..e3d4c5d 100755
--- a/src/models/block/mod.rs
+++ b/src/models/block/mod.rs
@@ -685,6 +685,8 @@ impl<'a> Load<'a> for ValueFlow {
             _ => return Err(Error::InvalidTag),
         };
 
+        let slice1 = &mut ok!(slice.load_reference_as_slice());
+
         let fees_collected = ok!(CurrencyCollection::load_from(slice));
         let burned = if with_burned {
             ok!(CurrencyCollection::load_from(slice))
@@ -692,7 +694,6 @@ impl<'a> Load<'a> for ValueFlow {
             CurrencyCollection::ZERO
         };
 
-        let slice1 = &mut ok!(slice.load_reference_as_slice());
         let slice2 = &mut ok!(slice.load_reference_as_slice());
 
         Ok(Self {
-- 
2.43.0


From f4d7cdb39596803b48e8108414b25c1f05083f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:17 +0000
Subject: [PATCH 60/75] fix: allow serializing frozen accounts with serde

---
 src/models/account/mod.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/models/account/mod.rs b/src/models/account/mod.rs
index 686c90b..962891e 100644
--- a/src/models/account/mod.rs
+++ b/src/models/account/mod.rs
@@ -334,9 +334,32 @@ pub enum AccountState {
     /// Account exists and has been deployed.
     Active(StateInit),
     /// Account exists but has been frozen. Contains a hash of the last known [`StateInit`].
+    #[cfg_attr(feature = "serde", serde(with = "serde_frozen_state"))]
     Frozen(HashBytes),
 }
 
+/// An internally tagged variant must be a map.
+#[cfg(feature = "serde")]
+mod serde_frozen_state {
+    use serde::{Deserialize, Deserializer, Serialize, Serializer};
+
+    use super::*;
+
+    #[derive(Serialize, Deserialize)]
+    struct Frozen {
+        state_hash: HashBytes,
+    }
+
+    pub fn serialize<S: Serializer>(hash: &HashBytes, serializer: S) -> Result<S::Ok, S::Error> {
+        let state_hash = *hash;
+        Frozen { state_hash }.serialize(serializer)
+    }
+
+    pub fn deserialize<'de, D: Deserializer<'de>>(deserializer: D) -> Result<HashBytes, D::Error> {
+        Frozen::deserialize(deserializer).map(|frozen| frozen.state_hash)
+    }
+}
+
 impl AccountState {
     /// Returns an account status.
     pub fn status(&self) -> AccountStatus {
-- 
2.43.0


From 5b77201023608fd6c453a1a5ae4ee52082f9a3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 61/75] fix: read extra currencies inside of internally tagged
 values

---
 src/models/currency.rs | 54 +++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/src/models/currency.rs b/src/models/currency.rs
index 9acba34..bdf413a 100644
--- a/src/models/currency.rs
+++ b/src/models/currency.rs
@@ -178,11 +178,63 @@ impl<'a> arbitrary::Arbitrary<'a> for CurrencyCollection {
 
 /// Dictionary with amounts for multiple currencies.
 #[derive(Debug, Clone, Eq, PartialEq, Store, Load)]
-#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
+#[cfg_attr(feature = "serde", derive(serde::Serialize))]
 #[must_use]
 #[repr(transparent)]
 pub struct ExtraCurrencyCollection(Dict<u32, VarUint248>);
 
+#[cfg(feature = "serde")]
+impl<'de> serde::Deserialize<'de> for ExtraCurrencyCollection {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        use serde::de::{Error, Visitor};
+
+        // NOTE: Map keys are buffered as strings inside internally tagged enums.
+        #[derive(PartialEq, Eq, Hash)]
+        struct CurrencyId(u32);
+
+        impl<'de> serde::Deserialize<'de> for CurrencyId {
+            fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+            where
+                D: serde::Deserializer<'de>,
+            {
+                struct CurrencyIdVisitor;
+
+                impl Visitor<'_> for CurrencyIdVisitor {
+                    type Value = CurrencyId;
+
+                    fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                        f.write_str("a currency id")
+                    }
+
+                    fn visit_u64<E: Error>(self, v: u64) -> Result<Self::Value, E> {
+                        u32::try_from(v).map(CurrencyId).map_err(E::custom)
+                    }
+
+                    fn visit_str<E: Error>(self, v: &str) -> Result<Self::Value, E> {
+                        v.parse().map(CurrencyId).map_err(E::custom)
+                    }
+                }
+
+                deserializer.deserialize_any(CurrencyIdVisitor)
+            }
+        }
+
+        if !deserializer.is_human_readable() {
+            return Dict::deserialize(deserializer).map(Self);
+        }
+
+        let mut dict = Dict::new();
+        let map = HashMap::<CurrencyId, VarUint248>::deserialize(deserializer)?;
+        for (CurrencyId(id), amount) in map {
+            dict.set(id, amount).map_err(Error::custom)?;
+        }
+        Ok(Self(dict))
+    }
+}
+
 impl Default for ExtraCurrencyCollection {
     #[inline]
     fn default() -> Self {
-- 
2.43.0


From 0a1346ffbb8c1886992ab8321a23a1849e5a0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 62/75] fix: refuse labels longer than the key in bulk
 dictionary changes

---
 src/dict/ops/modify.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dict/ops/modify.rs b/src/dict/ops/modify.rs
index f2e2748..0b92ba3 100644
--- a/src/dict/ops/modify.rs
+++ b/src/dict/ops/modify.rs
@@ -379,7 +379,10 @@ impl IterStackItem {
         Ok(Self {
             prefix,
             after_label_offset: data.offset_bits(),
-            remaining_key_bits: key_bit_len - label.size_bits(),
+            remaining_key_bits: match key_bit_len.checked_sub(label.size_bits()) {
+                Some(remaining) => remaining,
+                None => return Err(Error::CellUnderflow),
+            },
             label: Label::new(cell.as_ref(), label),
             cell,
             state: Self::STATE_UNUSED,
-- 
2.43.0


From 16745ccd1d08b5aa6b6aaa21baaccb2dde0cd6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 63/75] fix: end the iteration over output actions after an
 error

---
 src/models/vm/out_actions.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/models/vm/out_actions.rs b/src/models/vm/out_actions.rs
index 87c11aa..db3b8dc 100644
--- a/src/models/vm/out_actions.rs
+++ b/src/models/vm/out_actions.rs
@@ -15,6 +15,12 @@ impl<'a> OutActionsRevIter<'a> {
     pub fn new(slice: CellSlice<'a>) -> Self {
         Self { slice }
     }
+
+    /// Makes the iterator end after the error.
+    fn finish(&mut self, err: Error) -> Error {
+        self.slice = Cell::empty_cell_ref().as_slice_allow_exotic();
+        err
+    }
 }
 
 impl Iterator for OutActionsRevIter<'_> {
@@ -27,18 +33,18 @@ impl Iterator for OutActionsRevIter<'_> {
                 return if self.slice.is_data_empty() && self.slice.is_refs_empty() {
                     None
                 } else {
-                    Some(Err(Error::InvalidData))
+                    Some(Err(self.finish(Error::InvalidData)))
                 };
             }
         };
 
         let action = match OutAction::load_from(&mut self.slice) {
             Ok(action) => action,
-            Err(e) => return Some(Err(e)),
+            Err(e) => return Some(Err(self.finish(e))),
         };
         self.slice = match prev_cell.as_slice() {
             Ok(slice) => slice,
-            Err(e) => return Some(Err(e)),
+            Err(e) => return Some(Err(self.finish(e))),
         };
         Some(Ok(action))
     }
-- 
2.43.0


From ef9e1c47c02472919bc5dc851f683ab75f24c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:18 +0000
Subject: [PATCH 64/75] fix: do not choose validators among zero weights

---
 src/models/config/params.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/models/config/params.rs b/src/models/config/params.rs
index 8987d58..43f893c 100644
--- a/src/models/config/params.rs
+++ b/src/models/config/params.rs
@@ -1132,7 +1132,10 @@ impl ValidatorSet {
         let mut total_wt = vset.total_weight;
 
         for _ in 0..count {
-            debug_assert!(total_wt > 0);
+            // There must be something to choose from.
+            if total_wt == 0 {
+                return None;
+            }
 
             // Generate a pseudo-random number 0..total_wt-1
             let mut p = prng.next_ranged(total_wt);
-- 
2.43.0


From 3e165ccfd47fbe4d92e54ed7f2395b2524276dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:45 +0000
Subject: [PATCH 65/75] fix: compute the used storage of accounts

---
 src/models/account/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/models/account/mod.rs b/src/models/account/mod.rs
index 962891e..dc0511d 100644
--- a/src/models/account/mod.rs
+++ b/src/models/account/mod.rs
@@ -48,7 +48,7 @@ impl StorageUsed {
             bits: VarUint56::new(res.bit_count),
         };
 
-        if res.cells.is_valid() || !res.bits.is_valid() {
+        if !res.cells.is_valid() || !res.bits.is_valid() {
             return Err(Error::IntOverflow);
         }
 
-- 
2.43.0


From 46f9d710060d95473824f128e51de676867c260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:23 +0000
Subject: [PATCH 66/75] mc: scheduling points behind cfg(tycho_mc)

---
 src/cell/cell_impl/sync.rs |  5 ++++-
 src/cell/usage_tree.rs     |  6 ++++++
 src/lib.rs                 |  4 ++++
 src/mc.rs                  | 33 +++++++++++++++++++++++++++++++++
 src/merkle/proof.rs        |  2 ++
 src/merkle/update.rs       |  4 +++-
 6 files changed, 52 insertions(+), 2 deletions(-)
 create mode 100644 src/mc.rs

diff --git a/src/cell/cell_impl/sync.rs b/src/cell/cell_impl/sync.rs
index 41058fa..0901ce8 100644
--- a/src/cell/cell_impl/sync.rs
+++ b/src/cell/cell_impl/sync.rs
@@ -149,7 +149,10 @@ impl<T: ?Sized> TryAsMut<T> for Arc<T> {
 impl TryAsMut<DynCell> for Cell {
     #[inline]
     fn try_as_mut(&mut self) -> Option<&mut DynCell> {
-        Arc::get_mut(&mut self.0)
+        mc_point!("cell/check-unique");
+        let unique = Arc::get_mut(&mut self.0);
+        mc_point!("cell/checked-unique");
+        unique
     }
 }
 
diff --git a/src/cell/usage_tree.rs b/src/cell/usage_tree.rs
index 401ed95..ef6917e 100644
--- a/src/cell/usage_tree.rs
+++ b/src/cell/usage_tree.rs
@@ -120,9 +120,11 @@ impl CellImpl for UsageCell {
 
     fn data(&self) -> &[u8] {
         if self.should_insert() {
+            mc_point!("usage/access");
             if let Some(usage_tree) = self.usage_tree.upgrade() {
                 usage_tree.insert(&self.cell);
             }
+            mc_point!("usage/accessed");
             self.set_inserted();
         }
         self.cell.data()
@@ -400,7 +402,9 @@ mod sync {
         pub fn load_reference(&self, index: u8) -> Option<&Arc<Self>> {
             if index < 4 {
                 let mut should_insert = false;
+                mc_point!("usage/load");
                 self.reference_states[index as usize].call_once_force(|_| {
+                    mc_point!("usage/loading");
                     let Some(child) = self.cell.as_ref().reference_cloned(index) else {
                         // NOTE: Don't forget to set `None` here if `MaybeUninit` is used.
                         return;
@@ -418,6 +422,8 @@ mod sync {
                     };
                 });
 
+                mc_point!("usage/loaded");
+
                 // SAFETY: `UnsafeCell` data is controlled by the `Once` state.
                 let child = unsafe { &*self.reference_data[index as usize].get().cast_const() };
                 if crate::util::unlikely(should_insert) {
diff --git a/src/lib.rs b/src/lib.rs
index 4fbd4ca..9e17b8b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -129,6 +129,10 @@ macro_rules! assert_impl_all {
 
 extern crate self as tycho_types;
 
+#[doc(hidden)]
+#[macro_use]
+pub mod mc;
+
 pub mod boc;
 pub mod cell;
 pub mod crc;
diff --git a/src/mc.rs b/src/mc.rs
new file mode 100644
index 0000000..694c6a4
--- /dev/null
+++ b/src/mc.rs
@@ -0,0 +1,33 @@
+//! Scheduling points for model checking.
+//!
+//! Everything here is compiled out unless the crate is built with `--cfg tycho_mc`.
+#![allow(unexpected_cfgs)]
+
+/// Marks a point at which a model checker may switch threads.
+#[cfg(tycho_mc)]
+macro_rules! mc_point {
+    ($name:literal) => {
+        crate::mc::point($name)
+    };
+}
+
+#[cfg(not(tycho_mc))]
+macro_rules! mc_point {
+    ($name:literal) => {};
+}
+
+#[cfg(tycho_mc)]
+static HOOK: std::sync::OnceLock<fn(&'static str)> = std::sync::OnceLock::new();
+
+/// Sets the function which is called at each scheduling point.
+#[cfg(tycho_mc)]
+pub fn set_hook(hook: fn(&'static str)) {
+    _ = HOOK.set(hook);
+}
+
+#[cfg(tycho_mc)]
+pub(crate) fn point(name: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook(name);
+    }
+}
diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index 605e760..9b43513 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -738,9 +738,11 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
                                     scope.spawn({
                                         let promise = promise.clone();
                                         move |_| {
+                                            mc_point!("task/start");
                                             let cell =
                                                 self.build_impl(child, parent_merkle_depth, None);
                                             promise.set(cell);
+                                            mc_point!("task/end");
                                         }
                                     });
                                     break 'cell ExtCell::Deferred(promise);
diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index fefad80..d47eeb6 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -801,6 +801,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                             let resolver = self.resolver;
                             let split_at = self.split_at;
                             move |_| {
+                                mc_point!("task/start");
                                 let CheckResult::Immediate(changed) = SubResolver {
                                     resolver,
                                     split_at,
@@ -809,7 +810,8 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                                 .process_children_impl(cell, skip_filter, is_pruned, None) else {
                                     unreachable!("deferred tasks will not spawn");
                                 };
-                                promise.set(changed)
+                                promise.set(changed);
+                                mc_point!("task/end");
                             }
                         });
                         return CheckResult::Deferred(entry.insert_entry(promise).get().clone());
-- 
2.43.0


From 22e169848257e6a8a92fabedf9a3600d28a7d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 67/75] fix: include added subtrees whose root was also
 accessed

---
 src/merkle/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/merkle/mod.rs b/src/merkle/mod.rs
index 482d88a..94de5e5 100644
--- a/src/merkle/mod.rs
+++ b/src/merkle/mod.rs
@@ -63,10 +63,10 @@ impl MerkleFilter for UsageTree {
 
 impl MerkleFilter for UsageTreeWithSubtrees {
     fn check(&self, cell: &HashBytes) -> FilterAction {
-        if UsageTreeWithSubtrees::contains_direct(self, cell) {
-            FilterAction::Include
-        } else if UsageTreeWithSubtrees::contains_subtree(self, cell) {
+        if UsageTreeWithSubtrees::contains_subtree(self, cell) {
             FilterAction::IncludeSubtree
+        } else if UsageTreeWithSubtrees::contains_direct(self, cell) {
+            FilterAction::Include
         } else {
             FilterAction::Skip
         }
-- 
2.43.0


From 0cd0abfafe9bf1dbfa3f255c52f3c0886a1cd226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 68/75] fix: record loaded cells before other threads can use
 them

---
 src/cell/usage_tree.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/cell/usage_tree.rs b/src/cell/usage_tree.rs
index ef6917e..fa83dd0 100644
--- a/src/cell/usage_tree.rs
+++ b/src/cell/usage_tree.rs
@@ -401,7 +401,6 @@ mod sync {
 
         pub fn load_reference(&self, index: u8) -> Option<&Arc<Self>> {
             if index < 4 {
-                let mut should_insert = false;
                 mc_point!("usage/load");
                 self.reference_states[index as usize].call_once_force(|_| {
                     mc_point!("usage/loading");
@@ -410,7 +409,12 @@ mod sync {
                         return;
                     };
 
-                    should_insert = self.mode == UsageTreeMode::OnLoad;
+                    // NOTE: Insert the child before it becomes available to other threads.
+                    if self.mode == UsageTreeMode::OnLoad {
+                        if let Some(usage_tree) = self.usage_tree.upgrade() {
+                            usage_tree.insert(&child);
+                        }
+                    }
 
                     // SAFETY: `UnsafeCell` data is controlled by the `Once` state.
                     unsafe {
@@ -426,14 +430,6 @@ mod sync {
 
                 // SAFETY: `UnsafeCell` data is controlled by the `Once` state.
                 let child = unsafe { &*self.reference_data[index as usize].get().cast_const() };
-                if crate::util::unlikely(should_insert) {
-                    if let Some(child) = child {
-                        if let Some(usage_tree) = self.usage_tree.upgrade() {
-                            usage_tree.insert(&child.cell);
-                        }
-                    }
-                }
-
                 child.as_ref()
             } else {
                 None
-- 
2.43.0


From f69397a2f1f41ea69f5480d07dbe661e22899907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:58 +0000
Subject: [PATCH 69/75] fix: include the whole tree if its root is an included
 subtree

---
 src/merkle/proof.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index 9b43513..40c56de 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -456,10 +456,10 @@ impl BuilderImpl<'_, '_, '_> {
             children: CellRefsBuilder,
         }
 
-        if !self.allow_different_root
-            && self.filter.check(self.root.repr_hash()) == FilterAction::Skip
-        {
-            return Err(Error::EmptyProof);
+        match self.filter.check(self.root.repr_hash()) {
+            FilterAction::Skip if !self.allow_different_root => return Err(Error::EmptyProof),
+            FilterAction::IncludeSubtree => return include_whole(self.root, self.context),
+            _ => {}
         }
 
         let mut stack = Vec::with_capacity((self.root.repr_depth() as usize).min(MAX_OK_DEPTH));
@@ -609,10 +609,10 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
             }
         }
 
-        if !self.allow_different_root
-            && self.filter.check(self.root.repr_hash()) == FilterAction::Skip
-        {
-            return Err(Error::EmptyProof);
+        match self.filter.check(self.root.repr_hash()) {
+            FilterAction::Skip if !self.allow_different_root => return Err(Error::EmptyProof),
+            FilterAction::IncludeSubtree => return include_whole(self.root, self.context),
+            _ => {}
         }
 
         let mut root_cell = rayon::scope(|scope| self.build_impl(self.root, 0, Some(scope)))?;
@@ -835,6 +835,17 @@ struct CellParts {
     refs: Vec<ExtCell>,
 }
 
+/// Makes a proof cell for a root which is included with its whole subtree.
+fn include_whole(root: &DynCell, context: &dyn CellContext) -> Result<Cell, Error> {
+    let mut builder = CellBuilder::new();
+    builder.set_exotic(root.descriptor().is_exotic());
+    ok!(builder.store_cell_data(root));
+    for child in root.references().cloned() {
+        ok!(builder.store_reference(child));
+    }
+    builder.build_ext(context)
+}
+
 #[cold]
 fn make_pruned_branch_cold(
     cell: &DynCell,
-- 
2.43.0


From 06e92165ebf48a74920d7ee87319cd917bdcf2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:12 +0000
Subject: [PATCH 70/75] fix: keep reused cells below included subtrees in
 Merkle updates

---
 src/merkle/update.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index d47eeb6..7247aaf 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -546,7 +546,8 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
     fn build(self) -> Result<MerkleUpdate, Error> {
         struct Resolver<'a> {
             pruned_branches: ahash::HashSet<&'a HashBytes>,
-            visited: ahash::HashMap<&'a HashBytes, bool>,
+            // NOTE: The result depends on whether the cell is a part of an included subtree.
+            visited: ahash::HashMap<(&'a HashBytes, bool), bool>,
             filter: &'a dyn MerkleFilter,
             changed_cells: ahash::HashSet<&'a HashBytes>,
         }
@@ -556,7 +557,8 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
                 let repr_hash = cell.repr_hash();
 
                 // Skip visited cells
-                if let Some(&result) = self.visited.get(repr_hash) {
+                let visited_key = (repr_hash, skip_filter);
+                if let Some(&result) = self.visited.get(&visited_key) {
                     return result;
                 }
 
@@ -587,7 +589,7 @@ impl<'a: 'b, 'b, 'c: 'a> BuilderImpl<'a, 'b, 'c> {
 
                 result |= is_pruned;
 
-                self.visited.insert(repr_hash, result);
+                self.visited.insert(visited_key, result);
 
                 result
             }
@@ -701,7 +703,8 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         struct Resolver<'a> {
             pruned_branches: scc::HashSet<&'a HashBytes, ahash::RandomState>,
             changed_cells: scc::HashSet<&'a HashBytes, ahash::RandomState>,
-            deferred: scc::HashMap<&'a HashBytes, Promise<bool>, ahash::RandomState>,
+            // NOTE: The result depends on whether the cell is a part of an included subtree.
+            deferred: scc::HashMap<(&'a HashBytes, bool), Promise<bool>, ahash::RandomState>,
             filter: &'a (dyn MerkleFilter + Send + Sync),
         }
 
@@ -745,7 +748,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         struct SubResolver<'a, 's, 'r> {
             resolver: &'r Resolver<'a>,
             split_at: &'s ahash::HashSet<HashBytes>,
-            visited: ahash::HashMap<&'a HashBytes, bool>,
+            visited: ahash::HashMap<(&'a HashBytes, bool), bool>,
         }
 
         impl<'a, 's, 'r> SubResolver<'a, 's, 'r> {
@@ -763,7 +766,8 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                 let repr_hash = cell.repr_hash();
 
                 // Skip visited cells
-                if let Some(&result) = self.visited.get(repr_hash) {
+                let visited_key = (repr_hash, skip_filter);
+                if let Some(&result) = self.visited.get(&visited_key) {
                     return CheckResult::Immediate(result);
                 }
 
@@ -782,13 +786,13 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                 };
 
                 if !process_children {
-                    self.visited.insert(repr_hash, is_pruned);
+                    self.visited.insert(visited_key, is_pruned);
                     return CheckResult::Immediate(is_pruned);
                 }
 
                 if let Some(scope) = scope {
                     if unlikely(self.split_at.contains(repr_hash)) {
-                        let entry = match self.resolver.deferred.entry(repr_hash) {
+                        let entry = match self.resolver.deferred.entry((repr_hash, skip_filter)) {
                             scc::hash_map::Entry::Occupied(entry) => {
                                 return CheckResult::Deferred(entry.get().clone());
                             }
@@ -822,7 +826,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
 
                 // Mark as visited only finished cells
                 if let CheckResult::Immediate(has_changed) = result {
-                    self.visited.insert(repr_hash, has_changed);
+                    self.visited.insert(visited_key, has_changed);
                 }
 
                 result
-- 
2.43.0


From d5eed580a7c21565668d2a974b6f8055d62b1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:07 +0000
Subject: [PATCH 71/75] fix: do not repeat the work on shared cells in parallel
 Merkle builders

---
 src/merkle/proof.rs  | 24 ++++++++++++----
 src/merkle/update.rs | 68 +++++++++++++++++++++++++-------------------
 2 files changed, 57 insertions(+), 35 deletions(-)

diff --git a/src/merkle/proof.rs b/src/merkle/proof.rs
index 40c56de..65f9797 100644
--- a/src/merkle/proof.rs
+++ b/src/merkle/proof.rs
@@ -583,24 +583,34 @@ struct ParBuilderImpl<'a, 'b, 'c: 'a> {
 #[cfg(all(feature = "rayon", feature = "sync"))]
 impl<'a> ParBuilderImpl<'a, '_, '_> {
     fn build(&self) -> Result<Cell, Error> {
+        // NOTE: Parts are stored with the result to prevent the reuse of their addresses.
+        type Finalized = ahash::HashMap<*const CellParts, (Arc<CellParts>, Cell)>;
+
         fn finalize(
             mut cell: ExtCell,
+            finalized: &mut Finalized,
             context: &(dyn CellContext + Send + Sync),
         ) -> Result<Cell, Error> {
             loop {
                 match cell {
                     ExtCell::Ordinary(cell) => return Ok(cell),
                     ExtCell::Partial(parts) => {
-                        let parts = Arc::unwrap_or_clone(parts);
+                        let key = Arc::as_ptr(&parts);
+                        if let Some((_, cell)) = finalized.get(&key) {
+                            return Ok(cell.clone());
+                        }
 
                         let mut refs = CellRefsBuilder::default();
-                        for child in parts.refs {
-                            let cell = finalize(child, context)?;
+                        for child in &parts.refs {
+                            let cell = finalize(child.clone(), finalized, context)?;
                             refs.store_reference(cell)?;
                         }
 
-                        return CellBuilder::from_parts(parts.is_exotic, parts.data.clone(), refs)
-                            .build_ext(context);
+                        let cell =
+                            CellBuilder::from_parts(parts.is_exotic, parts.data.clone(), refs)
+                                .build_ext(context)?;
+                        finalized.insert(key, (parts, cell.clone()));
+                        return Ok(cell);
                     }
                     ExtCell::Deferred(promise) => {
                         cell = ok!(promise.wait_cloned());
@@ -619,7 +629,9 @@ impl<'a> ParBuilderImpl<'a, '_, '_> {
         loop {
             match root_cell {
                 ExtCell::Ordinary(cell) => break Ok(cell),
-                root_cell @ ExtCell::Partial(_) => break finalize(root_cell, self.context),
+                root_cell @ ExtCell::Partial(_) => {
+                    break finalize(root_cell, &mut Default::default(), self.context);
+                }
                 ExtCell::Deferred(rx) => {
                     root_cell = ok!(rx.wait_cloned());
                 }
diff --git a/src/merkle/update.rs b/src/merkle/update.rs
index 7247aaf..b10a2a2 100644
--- a/src/merkle/update.rs
+++ b/src/merkle/update.rs
@@ -1,3 +1,6 @@
+#[cfg(all(feature = "rayon", feature = "sync"))]
+use std::sync::Arc;
+
 #[cfg(all(feature = "rayon", feature = "sync"))]
 use super::promise::Promise;
 use super::{FilterAction, MerkleFilter, MerkleProofBuilder, make_pruned_branch};
@@ -690,16 +693,19 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         old_split_at: ahash::HashSet<HashBytes>,
         new_split_at: ahash::HashSet<HashBytes>,
     ) -> Result<MerkleUpdate, Error> {
+        #[derive(Clone)]
         enum CheckResult<'a> {
             Immediate(bool),
-            Parts {
-                hash: &'a HashBytes,
-                items: Vec<CheckResult<'a>>,
-                is_pruned: bool,
-            },
+            Parts(Arc<CheckParts<'a>>),
             Deferred(Promise<bool>),
         }
 
+        struct CheckParts<'a> {
+            hash: &'a HashBytes,
+            items: Vec<CheckResult<'a>>,
+            is_pruned: bool,
+        }
+
         struct Resolver<'a> {
             pruned_branches: scc::HashSet<&'a HashBytes, ahash::RandomState>,
             changed_cells: scc::HashSet<&'a HashBytes, ahash::RandomState>,
@@ -718,27 +724,34 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                     }
                     .fill_impl(cell, false, Some(scope))
                 });
-                self.finalize(result)
+                self.finalize(&result, &mut Default::default())
             }
 
-            fn finalize(&self, result: CheckResult<'a>) -> bool {
+            fn finalize(
+                &self,
+                result: &CheckResult<'a>,
+                finalized: &mut ahash::HashMap<*const CheckParts<'a>, bool>,
+            ) -> bool {
                 match result {
-                    CheckResult::Immediate(result) => result,
-                    CheckResult::Parts {
-                        hash,
-                        items,
-                        is_pruned,
-                    } => {
+                    CheckResult::Immediate(result) => *result,
+                    CheckResult::Parts(parts) => {
+                        let key = Arc::as_ptr(parts);
+                        if let Some(&result) = finalized.get(&key) {
+                            return result;
+                        }
+
                         let mut result = false;
-                        for item in items {
-                            result |= self.finalize(item);
+                        for item in &parts.items {
+                            result |= self.finalize(item, finalized);
                         }
 
                         if result {
-                            self.changed_cells.insert(hash).ok();
+                            self.changed_cells.insert(parts.hash).ok();
                         }
 
-                        result | is_pruned
+                        result |= parts.is_pruned;
+                        finalized.insert(key, result);
+                        result
                     }
                     CheckResult::Deferred(promise) => promise.wait_cloned(),
                 }
@@ -748,7 +761,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
         struct SubResolver<'a, 's, 'r> {
             resolver: &'r Resolver<'a>,
             split_at: &'s ahash::HashSet<HashBytes>,
-            visited: ahash::HashMap<(&'a HashBytes, bool), bool>,
+            visited: ahash::HashMap<(&'a HashBytes, bool), CheckResult<'a>>,
         }
 
         impl<'a, 's, 'r> SubResolver<'a, 's, 'r> {
@@ -767,8 +780,8 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
 
                 // Skip visited cells
                 let visited_key = (repr_hash, skip_filter);
-                if let Some(&result) = self.visited.get(&visited_key) {
-                    return CheckResult::Immediate(result);
+                if let Some(result) = self.visited.get(&visited_key) {
+                    return result.clone();
                 }
 
                 let is_pruned = self.resolver.pruned_branches.contains(repr_hash);
@@ -786,8 +799,9 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                 };
 
                 if !process_children {
-                    self.visited.insert(visited_key, is_pruned);
-                    return CheckResult::Immediate(is_pruned);
+                    let result = CheckResult::Immediate(is_pruned);
+                    self.visited.insert(visited_key, result.clone());
+                    return result;
                 }
 
                 if let Some(scope) = scope {
@@ -824,11 +838,7 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
 
                 let result = self.process_children_impl(cell, skip_filter, is_pruned, scope);
 
-                // Mark as visited only finished cells
-                if let CheckResult::Immediate(has_changed) = result {
-                    self.visited.insert(visited_key, has_changed);
-                }
-
+                self.visited.insert(visited_key, result.clone());
                 result
             }
 
@@ -870,11 +880,11 @@ impl<'a: 'b, 'b, 'c: 'a> ParBuilderImpl<'a, 'b, 'c> {
                     items.push(self.fill_impl(child, skip_filter, scope));
                 }
 
-                CheckResult::Parts {
+                CheckResult::Parts(Arc::new(CheckParts {
                     hash: cell_hash,
                     items,
                     is_pruned,
-                }
+                }))
             }
         }
 
-- 
2.43.0


From 96586e9f1ce8a699e52155322388cca4e77d111c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 72/75] fix: drop loaded children of tracked cells without a
 recursion

---
 src/cell/usage_tree.rs | 40 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/cell/usage_tree.rs b/src/cell/usage_tree.rs
index fa83dd0..aa3fc35 100644
--- a/src/cell/usage_tree.rs
+++ b/src/cell/usage_tree.rs
@@ -267,6 +267,10 @@ mod rc {
             self.cell.clone()
         }
 
+        fn take_children(&mut self, children: &mut Vec<Rc<Self>>) {
+            children.extend(self.children.get_mut().iter_mut().filter_map(Option::take));
+        }
+
         pub fn should_insert(&self) -> bool {
             !self.inserted.get()
         }
@@ -300,6 +304,19 @@ mod rc {
             }
         }
     }
+
+    impl Drop for UsageCell {
+        fn drop(&mut self) {
+            // Drop loaded children without a recursion.
+            let mut children = Vec::new();
+            self.take_children(&mut children);
+            while let Some(child) = children.pop() {
+                if let Some(mut child) = Rc::into_inner(child) {
+                    child.take_children(&mut children);
+                }
+            }
+        }
+    }
 }
 
 #[cfg(feature = "sync")]
@@ -385,10 +402,12 @@ mod sync {
         }
 
         pub fn untrack_impl(self: Arc<Self>) -> Cell {
-            match Arc::try_unwrap(self) {
-                Ok(inner) => inner.cell,
-                Err(this) => this.cell.clone(),
-            }
+            self.cell.clone()
+        }
+
+        fn take_children(&mut self, children: &mut Vec<Arc<Self>>) {
+            let data = self.reference_data.iter_mut();
+            children.extend(data.filter_map(|child| child.get_mut().take()));
         }
 
         pub fn should_insert(&self) -> bool {
@@ -437,6 +456,19 @@ mod sync {
         }
     }
 
+    impl Drop for UsageCell {
+        fn drop(&mut self) {
+            // Drop loaded children without a recursion.
+            let mut children = Vec::new();
+            self.take_children(&mut children);
+            while let Some(child) = children.pop() {
+                if let Some(mut child) = Arc::into_inner(child) {
+                    child.take_children(&mut children);
+                }
+            }
+        }
+    }
+
     // SAFETY: `UnsafeCell` data is controlled by the `Once` state.
     unsafe impl Send for UsageCell {}
     unsafe impl Sync for UsageCell {}
-- 
2.43.0


From f4429d6c643ac68a5f614c60a858e9f5a087fb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:58 +0000
Subject: [PATCH 73/75] fix: resolve the root of a dictionary when its only
 entry is removed

---
 src/dict/ops/remove.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dict/ops/remove.rs b/src/dict/ops/remove.rs
index d00ea28..992b82d 100644
--- a/src/dict/ops/remove.rs
+++ b/src/dict/ops/remove.rs
@@ -34,7 +34,8 @@ pub fn dict_remove_owned(
         *dict = Some(ok!(rebuild_dict_from_stack(stack, leaf, context)));
         value
     } else {
-        let value = root.clone();
+        // NOTE: the removed range is relative to the resolved root.
+        let value = ok!(context.load_cell(root.clone(), LoadMode::Resolve));
         *dict = None;
         value
     };
@@ -74,7 +75,8 @@ pub fn aug_dict_remove_owned(
         )));
         value
     } else {
-        let value = root.clone();
+        // NOTE: the removed range is relative to the resolved root.
+        let value = ok!(context.load_cell(root.clone(), LoadMode::Resolve));
         *dict = None;
         value
     };
-- 
2.43.0


From 91c9c3520291d646de9433fe5720caec849ac68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:16 +0000
Subject: [PATCH 74/75] fix: count the weight of each signer once in
 check_signatures

---
 src/models/block/block_extra.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/models/block/block_extra.rs b/src/models/block/block_extra.rs
index e928557..e75d7af 100755
--- a/src/models/block/block_extra.rs
+++ b/src/models/block/block_extra.rs
@@ -412,7 +412,7 @@ impl BlockSignatureExt for Dict<u16, BlockSignature> {
     fn check_signatures(&self, list: &[ValidatorDescription], data: &[u8]) -> Result<u64, Error> {
         // Collect nodes by short id
         let mut unique_nodes =
-            ahash::HashMap::<[u8; 32], &ValidatorDescription>::with_capacity_and_hasher(
+            ahash::HashMap::<[u8; 32], (&ValidatorDescription, bool)>::with_capacity_and_hasher(
                 list.len(),
                 Default::default(),
             );
@@ -421,17 +421,20 @@ impl BlockSignatureExt for Dict<u16, BlockSignature> {
             let node_id_short = tl_proto::hash(tycho_crypto::tl::PublicKey::Ed25519 {
                 key: node.public_key.as_ref(),
             });
-            unique_nodes.insert(node_id_short, node);
+            unique_nodes.insert(node_id_short, (node, false));
         }
 
         let mut weight = 0;
         for value in self.values() {
             let value = ok!(value);
-            if let Some(node) = unique_nodes.get(&value.node_id_short) {
+            if let Some((node, counted)) = unique_nodes.get_mut(&value.node_id_short) {
                 if !node.verify_signature(data, &value.signature) {
                     return Err(Error::InvalidSignature);
                 }
-                weight += node.weight;
+                // NOTE: The same signature can be stored with several keys.
+                if !std::mem::replace(counted, true) {
+                    weight += node.weight;
+                }
             }
         }
 
-- 
2.43.0


From 555b73d3de32da9b191e919a6974ae44fb3cde07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:16 +0000
Subject: [PATCH 75/75] fix: refuse an overflow of the total weight in
 check_signatures

---
 src/models/block/block_extra.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/models/block/block_extra.rs b/src/models/block/block_extra.rs
index e75d7af..ce57c51 100755
--- a/src/models/block/block_extra.rs
+++ b/src/models/block/block_extra.rs
@@ -424,7 +424,7 @@ impl BlockSignatureExt for Dict<u16, BlockSignature> {
             unique_nodes.insert(node_id_short, (node, false));
         }
 
-        let mut weight = 0;
+        let mut weight = 0u64;
         for value in self.values() {
             let value = ok!(value);
             if let Some((node, counted)) = unique_nodes.get_mut(&value.node_id_short) {
@@ -433,7 +433,10 @@ impl BlockSignatureExt for Dict<u16, BlockSignature> {
                 }
                 // NOTE: The same signature can be stored with several keys.
                 if !std::mem::replace(counted, true) {
-                    weight += node.weight;
+                    weight = match weight.checked_add(node.weight) {
+                        Some(weight) => weight,
+                        None => return Err(Error::IntOverflow),
+                    };
                 }
             }
         }
-- 
2.43.0

