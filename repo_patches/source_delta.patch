From 404f640b0604202da61dda3a620c557441de7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:27 +0000
Subject: [PATCH 01/14] fix: allocate exactly the needed bytes in
 DynamicStorage2D::zeroed

For depths divisible by four one byte too many was allocated, so the zeroed
index was not equal to the same index built from cells, and its descendants
and ancestors were off by one byte.
---
 src/indices/morton_index_2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 41f1c20..3fb0108 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -623,7 +623,7 @@ pub struct DynamicStorage2D {
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
         Self {
-            bits: (0..=(depth / 4)).map(|_| 0_u8).collect(),
+            bits: vec![0; (depth + 3) / 4],
             depth,
         }
     }
-- 
2.43.0


From d4ad375ca74da7a540ee9217c61c1b50f289414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 02/14] fix: keep the cells in place when converting dynamic to
 fixed-depth indices

A dynamic index with fewer bytes than the fixed-depth storage was padded at
the wrong end, which moved all of its cells towards the deeper levels.
---
 src/indices/morton_index_2d.rs | 26 +++++++++++++-------------
 src/indices/morton_index_3d.rs | 26 +++++++++++++-------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 3fb0108..ca482af 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -5,7 +5,7 @@ use std::hash::Hash;
 use nalgebra::Vector2;
 
 use crate::dimensions::{Dim2D, Dimension, Quadrant, QuadrantOrdering};
-use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits, Endianness};
+use crate::number::{add_zero_before_every_bit_u8, add_zero_behind_every_bit_u8, Bits};
 use crate::{
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -869,18 +869,18 @@ impl<B: FixedStorageType> TryFrom<MortonIndex2D<DynamicStorage2D>>
                 max_depth: FixedDepthStorage::<Dim2D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage2D stores its cells as BigEndian, FixedDepthStorage2D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage2D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // Level 0 sits in the highest bits of the storage, so copy cell by cell. Levels beyond the depth of `value` stay zero
+            let mut ret: MortonIndex2D<FixedDepthStorage2D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 2646c84..1c7d536 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -9,7 +9,7 @@ use nalgebra::Vector3;
 use crate::{
     dimensions::{Dim3D, Dimension, Octant, OctantOrdering},
     number::{
-        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits, Endianness,
+        add_two_zeroes_before_every_bit_u32, add_two_zeroes_before_every_bit_u8, Bits,
     },
     CellIter, DynamicStorage, FixedDepthStorage, FixedStorageType, MortonIndex, MortonIndexNaming,
     StaticStorage, Storage, StorageType, VariableDepthMortonIndex, VariableDepthStorage,
@@ -934,18 +934,18 @@ impl<B: FixedStorageType> TryFrom<MortonIndex3D<DynamicStorage3D>>
                 max_depth: FixedDepthStorage::<Dim3D, B>::MAX_LEVELS,
             })
         } else {
-            // DynamicStorage3D stores its cells as BigEndian, FixedDepthStorage3D uses the native endianness of the current
-            // machine
-            #[cfg(target_endian = "little")]
-            let endianness = Endianness::LittleEndian;
-            #[cfg(target_endian = "big")]
-            let endianness = Endianness::BigEndian;
-            let bytes = value.storage.bits.as_slice();
-            Ok(Self {
-                storage: FixedDepthStorage3D {
-                    bits: unsafe { B::from_u8_slice(bytes, endianness) },
-                },
-            })
+            // Level 0 sits in the highest bits of the storage, so copy cell by cell. Levels beyond the depth of `value` stay zero
+            let mut ret: MortonIndex3D<FixedDepthStorage3D<B>> = Default::default();
+            for level in 0..value.depth() {
+                // Safe because of depth check above
+                unsafe {
+                    ret.set_cell_at_level_unchecked(
+                        level,
+                        value.get_cell_at_level_unchecked(level),
+                    );
+                }
+            }
+            Ok(ret)
         }
     }
 }
-- 
2.43.0


From eb4a7725f9b2b53392f044893d7ad955959e57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:30 +0000
Subject: [PATCH 03/14] fix: convert all bits of the grid index in the static
 3D from_grid_index

The first chunk was computed from the grid depth alone. Because the maximum
depth is not a multiple of the chunk size, the shifted grid index can span one
chunk more (e.g. depth 8 of StaticMortonIndex3D64), and its lowest bits were
dropped.
---
 src/indices/morton_index_3d.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 1c7d536..cbaf789 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -353,9 +353,9 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We also start setting the bits from the most significant chunk towards the least significant chunk!
         // This way, we make sure that we set the high bits first in cases where the grid_depth is smaller than
         // the MAX_LEVELS
-        let num_chunks = (grid_depth + 7) / 8;
         let max_chunks = (<FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS + 7) / 8;
-        let chunk_start = max_chunks - num_chunks;
+        // The lowest valid bit of the shifted grid index is at `shift_to_max_bits`
+        let chunk_start = shift_to_max_bits / 8;
         for chunk_index in (chunk_start..max_chunks).rev() {
             let start_bit = chunk_index * 8;
             let end_bit = start_bit + 8;
-- 
2.43.0


From bbe353e4098c14a8e94cf3be763dff10508c44a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:33 +0000
Subject: [PATCH 04/14] fix: do not overflow in
 StaticMortonIndex2D128::from_grid_index at grid depth 0

The grid index was shifted by 64 bits, which panics in builds with overflow
checks.
---
 src/indices/morton_index_2d.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index ca482af..c148ee4 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,8 +165,13 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
+        // For a `grid_depth` of zero there are no valid bits, and the shift can be as large as the word size
+        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
+        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) }
+            .checked_shl(shift_to_max_bits as u32)
+            .unwrap_or(0);
 
         let (lower_bits, higher_bits) = match ordering {
             QuadrantOrdering::XY => (x_bits, y_bits),
-- 
2.43.0


From f6b7235eb038b93771fe265b38b5b306f53ac2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:34 +0000
Subject: [PATCH 05/14] fix: do not overflow in align_to when the aligned value
 fits

The intermediate sum could overflow although the resulting multiple is
representable, e.g. 200_u8.align_to(100).
---
 src/align.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/align.rs b/src/align.rs
index 003a358..8fcda79 100644
--- a/src/align.rs
+++ b/src/align.rs
@@ -9,7 +9,10 @@ impl Alignable for u8 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -19,7 +22,10 @@ impl Alignable for u16 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -29,7 +35,10 @@ impl Alignable for u32 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -39,7 +48,10 @@ impl Alignable for u64 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -49,7 +61,10 @@ impl Alignable for u128 {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
@@ -59,7 +74,10 @@ impl Alignable for usize {
         if alignment == 0 {
             *self
         } else {
-            ((self + alignment - 1) / alignment) * alignment
+            match *self % alignment {
+                0 => *self,
+                remainder => *self + (alignment - remainder),
+            }
         }
     }
 }
-- 
2.43.0


From 64548ac22f9782fddbe4647853c9f0c3cf7a7e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:36 +0000
Subject: [PATCH 06/14] fix: mask the last byte in Vec<u8>::get_bits for
 unaligned ranges

The carry from the next byte was not limited to the requested range, so e.g.
get_bits(4..10) returned up to four bits too many.
---
 src/number.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/number.rs b/src/number.rs
index 265fe5c..f5e7a5f 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -341,6 +341,14 @@ impl Bits for Vec<u8> {
             bytes.pop();
         }
 
+        // Mask away the bits outside of the requested range that were carried over into the last byte
+        let bits_in_last_byte = num_bits % 8;
+        if bits_in_last_byte > 0 {
+            if let Some(last) = bytes.last_mut() {
+                *last &= 0xFF_u8 >> (8 - bits_in_last_byte);
+            }
+        }
+
         bytes
     }
 
-- 
2.43.0


From 9ce7102d919053578e41075112f6ca9ca5d08d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:37 +0000
Subject: [PATCH 07/14] fix: use only the documented lower bits in
 add_zero_before_every_bit

Bits above the lower four (u8) or eight (u16) leaked into the result.
---
 src/number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index f5e7a5f..df51a8e 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -484,7 +484,7 @@ pub fn add_zero_behind_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 4 bits of `val` and adds a zero before every bit.
 /// For example `0b1101` becomes `0b01_01_00_01`
 pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
-    let mut ret = val;
+    let mut ret = val & 0b1111;
     ret = (ret | (ret << 2)) & 0b00110011;
     ret = (ret | (ret << 1)) & 0b01010101;
     ret
@@ -493,7 +493,7 @@ pub fn add_zero_before_every_bit_u8(val: u8) -> u8 {
 /// Take the lower 8 bits of `val` and adds a zero before every bit. This is the `u16` version of
 /// `add_zero_before_every_bit_u8`
 pub fn add_zero_before_every_bit_u16(val: u16) -> u16 {
-    let mut ret = val;
+    let mut ret = val & 0b11111111;
     ret = (ret | (ret << 4)) & 0b00001111_00001111;
     ret = (ret | (ret << 2)) & 0b00110011_00110011;
     ret = (ret | (ret << 1)) & 0b01010101_01010101;
-- 
2.43.0


From f5601d823b93530c18a9270bcf2fe0b2aaf1d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:40 +0000
Subject: [PATCH 08/14] fix: clear unused bits in from_raw_index

Bits that belong to no cell took part in comparisons, so two indices with the
same depth and cells could be different, and an ancestor of such an index was
not equal to the same node built from cells.
---
 src/indices/morton_index_3d.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index cbaf789..b675525 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -234,8 +234,13 @@ impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
 
     /// Creates a new MortonIndex3D from the raw bits of an index
     pub fn from_raw_index(index: B) -> Self {
+        // Clear the 'waste' bits that belong to no cell, equality and order expect them to be zero
+        let mut bits = index;
+        unsafe {
+            bits.set_bits(0..(B::BITS % Dim3D::DIMENSIONALITY), B::default());
+        }
         Self {
-            storage: FixedDepthStorage3D { bits: index },
+            storage: FixedDepthStorage3D { bits },
         }
     }
 }
@@ -384,8 +389,16 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
 
     /// Creates a new MortonIndex3D from the raw bits of an index with `depth`
     pub fn from_raw_index(index: B, depth: u8) -> Self {
+        // Clear the 'waste' bits that belong to no cell, equality and order expect them to be zero
+        let mut bits = index;
+        unsafe {
+            bits.set_bits(
+                0..(B::BITS - depth as usize * Dim3D::DIMENSIONALITY),
+                B::default(),
+            );
+        }
         Self {
-            storage: StaticStorage3D { bits: index, depth },
+            storage: StaticStorage3D { bits, depth },
         }
     }
 }
-- 
2.43.0


From 73ee2d7f69b56ac8bb64049d89247ef248fd840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:56 +0000
Subject: [PATCH 09/14] fix: refuse a depth beyond the capacity in the static
 from_raw_index

An index with more levels than its storage holds was created, and reading or
writing its deeper cells (with in-range levels) was an arithmetic overflow.
---
 src/indices/morton_index_3d.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index b675525..6397ebd 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -388,7 +388,14 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
     }
 
     /// Creates a new MortonIndex3D from the raw bits of an index with `depth`
+    ///
+    /// # Panics
+    ///
+    /// If `depth` is larger than the maximum depth of the `StaticStorage3D<B>`
     pub fn from_raw_index(index: B, depth: u8) -> Self {
+        if depth as usize > Self::MAX_LEVELS {
+            panic!("depth must not be > MAX_LEVELS");
+        }
         // Clear the 'waste' bits that belong to no cell, equality and order expect them to be zero
         let mut bits = index;
         unsafe {
-- 
2.43.0


From ec837d439049e063d9e042b4a64aba46e85a4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:18 +0000
Subject: [PATCH 10/14] fix: do not shift by more than the word size in
 to_grid_index

For indices deeper than 64 levels the shift overflowed: a panic even for
representable grid indices with overflow checks, a silently wrong grid index
without. High bits that do not fit are refused with a panic, leading zeroes are
fine.
---
 src/indices/morton_index_2d.rs | 7 +++++++
 src/indices/morton_index_3d.rs | 7 +++++++
 src/morton.rs                  | 4 ++++
 3 files changed, 18 insertions(+)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index c148ee4..0a3b71e 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -361,6 +361,13 @@ impl<S: Storage<Dim2D>> MortonIndex for MortonIndex2D<S> {
             let quadrant = unsafe { self.get_cell_at_level_unchecked(level) };
             let quadrant_index = ordering.to_index(quadrant);
             let shift = self.depth() - level - 1;
+            if shift >= usize::BITS as usize {
+                // Such a high bit does not fit into the grid index
+                if quadrant_index.iter().any(|bit| *bit != 0) {
+                    panic!("Size of usize is too small for this grid index");
+                }
+                continue;
+            }
             index.x |= quadrant_index.x << shift;
             index.y |= quadrant_index.y << shift;
         }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 6397ebd..bf2db1b 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -161,6 +161,13 @@ impl<S: Storage<Dim3D>> MortonIndex for MortonIndex3D<S> {
             let octant = unsafe { self.get_cell_at_level_unchecked(level) };
             let octant_index = ordering.to_index(octant);
             let shift = self.depth() - level - 1;
+            if shift >= usize::BITS as usize {
+                // Such a high bit does not fit into the grid index
+                if octant_index.iter().any(|bit| *bit != 0) {
+                    panic!("Size of usize is too small for this grid index");
+                }
+                continue;
+            }
             index.x |= octant_index.x << shift;
             index.y |= octant_index.y << shift;
             index.z |= octant_index.z << shift;
diff --git a/src/morton.rs b/src/morton.rs
index 25a2d72..2aaeabd 100644
--- a/src/morton.rs
+++ b/src/morton.rs
@@ -96,6 +96,10 @@ pub trait MortonIndex: PartialOrd + Ord + PartialEq + Eq + Debug + Hash {
     /// Each N-ary tree is a 'less dense' version of the corresponding N-dimensional grid. As such, each node in an N-ary tree
     /// corresponds to a cell in an N-dimensional grid with a resolution of `2 ^ D`, where `D` is the depth of the node in the
     /// N-ary tree.
+    ///
+    /// # Panics
+    ///
+    /// If the grid index has a bit that does not fit into a `usize`, which is only possible if the depth exceeds `usize::BITS`
     fn to_grid_index(
         &self,
         ordering: <Self::Dimension as crate::dimensions::Dimension>::CellOrdering,
-- 
2.43.0


From e937c6fa738a59b9705c66d677f10db88e8609d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 11/14] fix: DynamicStorage::zeroed wraps around for huge
 depths

---
 src/indices/morton_index_2d.rs | 4 +++-
 src/indices/morton_index_3d.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index 0a3b71e..fa4a3a7 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -634,8 +634,10 @@ pub struct DynamicStorage2D {
 
 impl DynamicStorage2D {
     pub fn zeroed(depth: usize) -> Self {
+        // In a build without overflow checks, a huge depth would wrap around to a storage that is too small
+        let num_bytes = depth.checked_add(3).expect("depth is too large") / 4;
         Self {
-            bits: vec![0; (depth + 3) / 4],
+            bits: vec![0; num_bytes],
             depth,
         }
     }
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index bf2db1b..89d02d5 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -717,7 +717,9 @@ impl DynamicStorage3D {
     /// Returns a new `DynamicStorage3D` with the given `depth` and all bits set to zero, i.e. all cells equal
     /// to `Octant::Zero?`
     pub fn zeroed(depth: usize) -> Self {
-        let num_bytes = ((depth * 3) + 7) / 8;
+        // In a build without overflow checks, a huge depth would wrap around to a storage that is too small
+        let num_bits = depth.checked_mul(3).and_then(|bits| bits.checked_add(7));
+        let num_bytes = num_bits.expect("depth is too large") / 8;
         Self {
             bits: vec![0; num_bytes],
             depth,
-- 
2.43.0


From c8046463a08defb1fe2336b3f4cf43b5cbe2eeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 12/14] fix: set bits of a byte vector from the least
 significant bit on big endian platforms

Dynamic indices could not store any cell there: both the native word and the
pair of bytes of the new value were read in native byte order.
---
 src/number.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index df51a8e..5a7ca70 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -290,7 +290,7 @@ unsafe fn set_vec_u8_bits(vec: &mut Vec<u8>, bit_range: Range<usize>, new_value:
                 new_value[new_val_byte_idx].get_bits(dst_start_in_byte..dst_end_in_byte)
             } else {
                 let ptr = new_value.as_ptr().add(new_val_byte_idx) as *const u16;
-                let two_bytes = ptr.read_unaligned();
+                let two_bytes = u16::from_le(ptr.read_unaligned());
                 let start_bit_in_two_bytes = new_val_start_bit - (new_val_byte_idx * 8);
                 let end_bit_in_two_bytes = new_val_end_bit - (new_val_byte_idx * 8);
                 two_bytes.get_bits(start_bit_in_two_bytes..end_bit_in_two_bytes) as u8
@@ -452,8 +452,9 @@ impl Bits for Vec<u8> {
     }
 
     unsafe fn set_bits_from_usize(&mut self, bit_range: Range<usize>, new_value: usize) {
-        let bytes = bytemuck::bytes_of(&new_value);
-        set_vec_u8_bits(self, bit_range, bytes);
+        // The bits are counted from the least significant one, on big endian platforms as well
+        let bytes = new_value.to_le_bytes();
+        set_vec_u8_bits(self, bit_range, &bytes);
     }
 
     fn size(&self) -> usize {
-- 
2.43.0


From 739e021fcd4874e4cf56fd1b5dbb8e6a6eceb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 13/14] fix: from_grid_index for static indices with more
 levels than usize has bits

On 32-bit platforms the grid coordinates were shifted out of usize for 128-bit
storage, which lost cells or panicked.
---
 src/indices/morton_index_2d.rs | 5 +++--
 src/indices/morton_index_3d.rs | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/indices/morton_index_2d.rs b/src/indices/morton_index_2d.rs
index fa4a3a7..b95d30e 100644
--- a/src/indices/morton_index_2d.rs
+++ b/src/indices/morton_index_2d.rs
@@ -165,11 +165,12 @@ impl<B: FixedStorageType> MortonIndex2D<StaticStorage2D<B>> {
         // in `morton_index_3d.rs`
         let shift_to_max_bits =
             <FixedDepthStorage<Dim2D, B> as StorageType>::MAX_LEVELS - grid_depth;
+        // Shift 64-bit values, `usize` might have fewer bits than there are levels
         // For a `grid_depth` of zero there are no valid bits, and the shift can be as large as the word size
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) }
+        let x_bits = unsafe { (grid_index.x as u64).get_bits(0..grid_depth) }
             .checked_shl(shift_to_max_bits as u32)
             .unwrap_or(0);
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) }
+        let y_bits = unsafe { (grid_index.y as u64).get_bits(0..grid_depth) }
             .checked_shl(shift_to_max_bits as u32)
             .unwrap_or(0);
 
diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index 89d02d5..f005658 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -347,11 +347,12 @@ impl<B: FixedStorageType> MortonIndex3D<StaticStorage3D<B>> {
         // We then start setting bits from the grid index bits over to the Morton index from the most-significant bit down, which is why
         // we have this rev() call in the for-loop!
 
+        // Shift 64-bit values, `usize` might have fewer bits than there are levels
         let shift_to_max_bits =
             <FixedDepthStorage<Dim3D, B> as StorageType>::MAX_LEVELS - grid_depth;
-        let x_bits = unsafe { grid_index.x.get_bits(0..grid_depth) << shift_to_max_bits };
-        let y_bits = unsafe { grid_index.y.get_bits(0..grid_depth) << shift_to_max_bits };
-        let z_bits = unsafe { grid_index.z.get_bits(0..grid_depth) << shift_to_max_bits };
+        let x_bits = unsafe { (grid_index.x as u64).get_bits(0..grid_depth) << shift_to_max_bits };
+        let y_bits = unsafe { (grid_index.y as u64).get_bits(0..grid_depth) << shift_to_max_bits };
+        let z_bits = unsafe { (grid_index.z as u64).get_bits(0..grid_depth) << shift_to_max_bits };
 
         let (x_shift, y_shift, z_shift) = ordering.get_bit_shifts_for_xyz();
 
-- 
2.43.0


From bbd387107b47e634861a6933e9b05b21e1fd9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:49 +0000
Subject: [PATCH 14/14] fix: bitmask of fixed-depth 3D indices with more levels
 than usize has bits

On 32-bit platforms any use of from_grid_index with 128-bit storage failed to
compile instead of reaching its documented panic.
---
 src/indices/morton_index_3d.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/indices/morton_index_3d.rs b/src/indices/morton_index_3d.rs
index f005658..c2555e0 100644
--- a/src/indices/morton_index_3d.rs
+++ b/src/indices/morton_index_3d.rs
@@ -180,7 +180,11 @@ impl<B: FixedStorageType> MortonIndex3D<FixedDepthStorage3D<B>> {
     /// Maximum levels that this Morton index type can represent
     pub const MAX_LEVELS: usize = B::BITS / Dim3D::DIMENSIONALITY;
     /// Bitmask that only retains the lowest MAX_LEVELS bits
-    pub const MAX_LEVELS_BITMASK: usize = (1 << Self::MAX_LEVELS) - 1;
+    pub const MAX_LEVELS_BITMASK: usize = match 1_usize.checked_shl(Self::MAX_LEVELS as u32) {
+        Some(bit) => bit - 1,
+        // `usize` has no more bits than there are levels
+        None => usize::MAX,
+    };
     /// Creates a new MortonIndex3D with fixed-depth storage from the given 3D grid index. The `grid_index` is assumed to
     /// represent a grid with a depth equal to `FixedDepthStorage3D<B>::MAX_LEVELS`.
     ///
-- 
2.43.0

