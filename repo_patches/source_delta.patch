From 8ed72590a6a75eb0eea2bcdf7ab0713db6ae0e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 1/7] fix: allocate exactly the bytes needed in
 DynamicStorage2D::zeroed

For depths divisible by four one byte too many was allocated, so a zeroed index
was not equal to the same index built from cells (although cmp said Equal), and
its ancestors masked the wrong byte.
---
 src/indices/morton_index_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..3fb0108 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -623,7 +623,7 @@ pub struct DynamicStorage2D {
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0; (depth + 3) / 4],
             depth,
         }
     }
-- 
2.43.0


From 191a5c737c835bd32982e57d703b1f844fd6cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 2/7] fix: do not overflow the shift for grid depth 0 with 64
 levels

StaticMortonIndex2D128::from_grid_index with a grid depth of 0 shifted an usize
by 64 bits, which panics when overflow checks are enabled.
---
 src/indices/morton_index_2d.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 3fb0108..8388527 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,8 +165,12 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
+        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
-- 
2.43.0


From 0091fb9d95a5a4b46ee0042e21f7c83021416a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 3/7] fix: process every chunk that holds grid bits in the
 static 3D from_grid_index

MAX_LEVELS is not a multiple of 8 for most word sizes, so the grid bits can touch
one chunk more than (grid_depth + 7) / 8 and the cells in it were lost.
---
 src/indices/morton_index_3d.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..dee8ab8 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -353,9 +353,8 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From 93f10c3bf242d590c2ff407e39bf5313a0ec993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 4/7] fix: keep the levels when converting a short dynamic
 index to fixed depth

A dynamic index occupying fewer bytes than the fixed-depth word was padded at the
wrong end, which moved its cells to deeper levels.
---
 src/indices/morton_index_2d.rs | 6 ++++--
 src/indices/morton_index_3d.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 8388527..d0be4e6 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -879,10 +879,12 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
             let endianness = Endianness::LittleEndian;
             #[cfg(target_endian = "big")]
             let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
+            // The first levels sit in the last bytes, so missing bytes (i.e. zero cells) have to be added at the front
+            let mut bytes = vec![0_u8; B::BITS / 8 - value.storage.bits.len()];
+            bytes.extend_from_slice(&value.storage.bits);
             Ok(Self {
                 storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
+                    bits: unsafe { B::from_u8_slice(&bytes, endianness) },
                 },
             })
         }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index dee8ab8..c45bd38 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -939,10 +939,12 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
             let endianness = Endianness::LittleEndian;
             #[cfg(target_endian = "big")]
             let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
+            // The first levels sit in the last bytes, so missing bytes (i.e. zero cells) have to be added at the front
+            let mut bytes = vec![0_u8; B::BITS / 8 - value.storage.bits.len()];
+            bytes.extend_from_slice(&value.storage.bits);
             Ok(Self {
                 storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
+                    bits: unsafe { B::from_u8_slice(&bytes, endianness) },
                 },
             })
         }
-- 
2.43.0


From 59a0bd012602f70362bf960315ab9b75106418a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 5/7] fix: mask the last byte before carrying in
 Vec<u8>::get_bits

Bits beyond the requested range leaked into the result when the last byte held
fewer requested bits than the shift, e.g. for the range 4..9.
---
 src/number.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 265fe5c..5c46730 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -320,12 +320,6 @@ impl Bits for Vec<u8> {
 
         let mut bytes = self[start_byte..end_byte].to_owned();
         for idx in 0..bytes.len() {
-            if idx > 0 && shift_within_byte > 0 {
-                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
-                // previous byte
-                let carry = bytes[idx].get_bits(0..shift_within_byte);
-                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
-            }
             if idx == bytes.len() - 1 {
                 // Mask away the upper bits outside of the requested range on the last byte
                 let excess_bits = (end_byte * 8) - bit_range.end;
@@ -333,6 +327,12 @@ impl Bits for Vec<u8> {
                 let mask = 0xFF_u8 >> excess_bits;
                 bytes[idx] &= mask;
             }
+            if idx > 0 && shift_within_byte > 0 {
+                // Take the part of the byte that gets shifted 'out' of the current byte, and move it over to the
+                // previous byte
+                let carry = bytes[idx].get_bits(0..shift_within_byte);
+                bytes[idx - 1].set_bits((8 - shift_within_byte)..8, carry);
+            }
             bytes[idx] >>= shift_within_byte;
         }
 
-- 
2.43.0


From b950a26d69d1f5918bcaac56c06e917efba169b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 6/7] fix: ignore the upper half of the input in
 add_zero_before_every_bit_*

The documentation says only the lower 4 (8) bits are taken, but higher bits ended
up in the result.
---
 src/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 5c46730..2df30a1 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -476,7 +476,7 @@ pub fn add_zero_behind_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 4 bits of `val` and adds a zero before every bit.
 /// For example `0b1101` becomes `0b01_01_00_01`
 pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
-    let mut ret = val;
+    let mut ret = val & 0b00001111;
     ret = (ret | (ret << 2)) & 0b00110011;
     ret = (ret | (ret << 1)) & 0b01010101;
     ret
@@ -485,7 +485,7 @@ pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 8 bits of `val` and adds a zero before every bit. This is the `u16` version of
 /// `add_zero_before_every_bit_u8`
 pub fn add_zero_before_every_bit_u16(val: u16) -> u16 {
-    let mut ret = val;
+    let mut ret = val & 0b00000000_11111111;
     ret = (ret | (ret << 4)) & 0b00001111_00001111;
     ret = (ret | (ret << 2)) & 0b00110011_00110011;
     ret = (ret | (ret << 1)) & 0b01010101_01010101;
-- 
2.43.0


From 2413798003d30599cc1cfba84be411d146e32bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:37 +0000
Subject: [PATCH 7/7] fix: do not overflow in align_to when the aligned value
 is representable

self + alignment - 1 can exceed the type's range even if the result does not, e.g.
255_u8.align_to(1) or 200_u8.align_to(100).
---
 src/align.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/align.rs b/src/align.rs
index 003a358..8fcda79 100644
--- a/src/align.rs
+++ b/src/align.rs
@@ -9,7 +9,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -19,7 +22,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -29,7 +35,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -39,7 +48,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -49,7 +61,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -59,7 +74,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0

