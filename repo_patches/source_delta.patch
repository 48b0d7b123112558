From 5d945c0bb6e18afa1c78b5ad426e75b55e7bb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:56 +0000
Subject: [PATCH 01/38] fix: do not overflow on x/y differences in Point10
 version 1

Coordinates are arbitrary i32s, their difference wraps (like in the version 2
and 3 of the compressors). With overflow checks the compression of valid
points panicked.
---
 src/las/point0.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/las/point0.rs b/src/las/point0.rs
index ebab126..213191e 100644
--- a/src/las/point0.rs
+++ b/src/las/point0.rs
@@ -431,8 +431,8 @@ pub mod v1 {
             let median_x = median_diff(&self.last_x_diffs);
             let median_y = median_diff(&self.last_y_diffs);
 
-            let x_diff = current_point.x() - self.last_point.x();
-            let y_diff = current_point.y() - self.last_point.y();
+            let x_diff = current_point.x().wrapping_sub(self.last_point.x());
+            let y_diff = current_point.y().wrapping_sub(self.last_point.y());
 
             self.ic_dx
                 .compress(encoder, median_x, x_diff, DEFAULT_COMPRESS_CONTEXTS)?;
@@ -545,7 +545,7 @@ pub mod v1 {
             let x_diff =
                 self.ic_dx
                     .decompress(&mut decoder, median_x, DEFAULT_DECOMPRESS_CONTEXTS)?;
-            self.last_point.x += x_diff;
+            self.last_point.x = self.last_point.x.wrapping_add(x_diff);
             // we use the number k of bits corrector bits to switch contexts
             let k_bits = self.ic_dx.k();
             let y_diff = self.ic_dy.decompress(
@@ -553,7 +553,7 @@ pub mod v1 {
                 median_y,
                 if k_bits < 19 { k_bits } else { 19 },
             )?;
-            self.last_point.y += y_diff;
+            self.last_point.y = self.last_point.y.wrapping_add(y_diff);
             let k_bits = (k_bits + self.ic_dy.k()) / 2;
             self.last_point.z = self.ic_dz.decompress(
                 &mut decoder,
-- 
2.43.0


From b6277fd888260d7e4d3c927916bd0de0af5a7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:27 +0000
Subject: [PATCH 02/38] fix: wrap instead of overflowing in gps time difference
 arithmetic

---
 src/las/gps.rs    | 67 +++++++++++++++++++++++++----------------------
 src/las/point6.rs | 17 ++++++------
 2 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/src/las/gps.rs b/src/las/gps.rs
index df371b5..68be49c 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -85,7 +85,7 @@ impl Add<f64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: f64) -> Self::Output {
-        Self::from(self.value + rhs.to_bits() as i64)
+        Self::from(self.value.wrapping_add(rhs.to_bits() as i64))
     }
 }
 
@@ -93,19 +93,19 @@ impl Add<i64> for GpsTime {
     type Output = Self;
 
     fn add(self, rhs: i64) -> Self::Output {
-        Self::from(self.value + rhs)
+        Self::from(self.value.wrapping_add(rhs))
     }
 }
 
 impl AddAssign<f64> for GpsTime {
     fn add_assign(&mut self, rhs: f64) {
-        self.value += rhs.to_bits() as i64;
+        self.value = self.value.wrapping_add(rhs.to_bits() as i64);
     }
 }
 
 impl AddAssign<i64> for GpsTime {
     fn add_assign(&mut self, rhs: i64) {
-        self.value += rhs;
+        self.value = self.value.wrapping_add(rhs);
     }
 }
 
@@ -265,7 +265,8 @@ pub mod v1 {
                 if current_gps_time_value == self.last_gps {
                     encoder.encode_symbol(&mut self.gps_time_0_diff_model, 0)?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -293,7 +294,8 @@ pub mod v1 {
                         LASZIP_GPS_TIME_MULTI_MAX - 1,
                     )?;
                 } else {
-                    let current_gps_time_diff_64 = current_gps_time_value - self.last_gps;
+                    let current_gps_time_diff_64 =
+                        current_gps_time_value.wrapping_sub(self.last_gps);
                     let current_gps_time_diff_32 = current_gps_time_diff_64 as i32;
 
                     if current_gps_time_diff_64 == i64::from(current_gps_time_diff_32) {
@@ -331,21 +333,21 @@ pub mod v1 {
                         } else if multi < 10 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 3,
                             )?;
                         } else if multi < 50 {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 4,
                             )?;
                         } else {
                             self.ic_gps_time.compress(
                                 &mut encoder,
-                                self.last_gps_time_diff * multi,
+                                self.last_gps_time_diff.wrapping_mul(multi),
                                 current_gps_time_diff_32,
                                 5,
                             )?;
@@ -395,7 +397,9 @@ pub mod v1 {
                 if multi == 1 {
                     // the difference can be represented with 32 bits
                     self.last_gps_time_diff = self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                    self.last_gps += i64::from(self.last_gps_time_diff);
+                    self.last_gps = self
+                        .last_gps
+                        .wrapping_add(i64::from(self.last_gps_time_diff));
                 } else if multi == 2 {
                     // the difference is huge,
                     // the gps was written as is
@@ -436,7 +440,7 @@ pub mod v1 {
 
                         gps_time_diff = self.ic_gps_time.decompress(
                             &mut decoder,
-                            self.last_gps_time_diff * multi as i32,
+                            self.last_gps_time_diff.wrapping_mul(multi as i32),
                             context,
                         )?;
 
@@ -448,7 +452,7 @@ pub mod v1 {
                             }
                         }
                     }
-                    self.last_gps += i64::from(gps_time_diff);
+                    self.last_gps = self.last_gps.wrapping_add(i64::from(gps_time_diff));
                 } else if multi < LASZIP_GPS_TIME_MULTI_MAX - 1 {
                     self.last_gps = decoder.read_int_64()? as i64;
                 }
@@ -578,12 +582,12 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self
-                                        .common
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common
                                         .last_gps_times
                                         .get_unchecked((self.common.last + i) & 3)
-                                        .value;
+                                        .value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -644,12 +648,12 @@ pub mod v2 {
                         )?;
                     } else {
                         // the last integer difference was *not* zero
-                        let curr_gps_time_diff_64 = this_val.value
-                            - self
-                                .common
+                        let curr_gps_time_diff_64 = this_val.value.wrapping_sub(
+                            self.common
                                 .last_gps_times
                                 .get_unchecked(self.common.last)
-                                .value;
+                                .value,
+                        );
                         let curr_gps_time_diff_32 = curr_gps_time_diff_64 as i32;
 
                         // if the current gps time difference can be represented with 32 bits
@@ -784,8 +788,9 @@ pub mod v2 {
                             // the difference is huge
                             // maybe the double belongs to another time sequence
                             for i in 1..4 {
-                                let other_gps_time_diff_64 = this_val.value
-                                    - self.common.last_gps_times[(self.common.last + i) & 3].value;
+                                let other_gps_time_diff_64 = this_val.value.wrapping_sub(
+                                    self.common.last_gps_times[(self.common.last + i) & 3].value,
+                                );
                                 let other_gps_time_diff_32 = other_gps_time_diff_64 as i32;
 
                                 if other_gps_time_diff_64 == i64::from(other_gps_time_diff_32) {
@@ -889,10 +894,10 @@ pub mod v2 {
                             .last_gps_time_diffs
                             .get_unchecked_mut(self.common.last) =
                             self.ic_gps_time.decompress(&mut decoder, 0, 0)?;
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             *self
                                 .common
                                 .last_gps_time_diffs
@@ -947,10 +952,10 @@ pub mod v2 {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
 
                     if multi == 1 {
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(
+                            .get_unchecked_mut(self.common.last) += i64::from(
                             self.ic_gps_time.decompress(
                                 &mut decoder,
                                 *self
@@ -1089,10 +1094,10 @@ pub mod v2 {
                                 }
                             }
                         }
-                        self.common
+                        *self
+                            .common
                             .last_gps_times
-                            .get_unchecked_mut(self.common.last)
-                            .value += i64::from(gps_time_diff);
+                            .get_unchecked_mut(self.common.last) += i64::from(gps_time_diff);
                     } else if multi == LASZIP_GPS_TIME_MULTI_CODE_FULL {
                         self.common.next = (self.common.next + 1) & 3;
                         self.common
diff --git a/src/las/point6.rs b/src/las/point6.rs
index 87424e0..13323a2 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -796,9 +796,10 @@ mod v3_v4 {
                     } else if multi == LASZIP_GPS_TIME_MULTI {
                         gps_time_diff = the_context.decompressors.gps_time.decompress(
                             &mut self.decoders.gps_time,
-                            LASZIP_GPS_TIME_MULTI
-                                * the_context.gps_sequences.last_gps_diffs
+                            LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                the_context.gps_sequences.last_gps_diffs
                                     [the_context.gps_sequences.last],
+                            ),
                             4,
                         )?;
                         the_context.gps_sequences.multi_extreme_counter
@@ -1443,10 +1444,9 @@ mod v3_v4 {
                 }
             } else {
                 // the last integer difference was *not* zero
-                let curr_gps_time_diff_64 = i64::from(gps_time)
-                    - i64::from(
-                        the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
-                    );
+                let curr_gps_time_diff_64 = i64::from(gps_time).wrapping_sub(i64::from(
+                    the_context.gps_sequences.last_gps_times[the_context.gps_sequences.last],
+                ));
                 let curr_gps_time_diff = curr_gps_time_diff_64 as i32;
 
                 if curr_gps_time_diff_64 == i64::from(curr_gps_time_diff) {
@@ -1495,9 +1495,10 @@ mod v3_v4 {
                             )?;
                             the_context.compressors.gps_time.compress(
                                 &mut self.encoders.gps_time,
-                                LASZIP_GPS_TIME_MULTI
-                                    * the_context.gps_sequences.last_gps_diffs
+                                LASZIP_GPS_TIME_MULTI.wrapping_mul(
+                                    the_context.gps_sequences.last_gps_diffs
                                         [the_context.gps_sequences.last],
+                                ),
                                 curr_gps_time_diff,
                                 4,
                             )?;
-- 
2.43.0


From 2e35499f1446e4ca4f74ab20d287d5640b694d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 03/38] fix: decode and encode the upper bytes of RGB version 1
 properly

---
 src/las/rgb.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/las/rgb.rs b/src/las/rgb.rs
index bf4ffc1..941d968 100644
--- a/src/las/rgb.rs
+++ b/src/las/rgb.rs
@@ -263,12 +263,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_red_byte_changed() {
-                self.last.red |= (self.decompress_byte(
+                let new_upper_red = self.decompress_byte(
                     decoder,
                     UPPER_RED_BYTE_CONTEXT,
                     upper_byte(self.last.red),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.red = (new_upper_red as u16) << 8 | self.last.red & 0x00FF;
             }
 
             if color_diff.lower_green_byte_changed() {
@@ -281,12 +281,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_green_byte_changed() {
-                self.last.green |= (self.decompress_byte(
+                let new_upper_green = self.decompress_byte(
                     decoder,
                     UPPER_GREEN_BYTE_CONTEXT,
                     upper_byte(self.last.green),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.green = (new_upper_green as u16) << 8 | self.last.green & 0x00FF;
             }
 
             if color_diff.lower_blue_byte_changed() {
@@ -299,12 +299,12 @@ pub mod v1 {
             }
 
             if color_diff.upper_blue_byte_changed() {
-                self.last.blue |= (self.decompress_byte(
+                let new_upper_blue = self.decompress_byte(
                     decoder,
                     UPPER_BLUE_BYTE_CONTEXT,
                     upper_byte(self.last.blue),
-                )? as u16)
-                    << 8;
+                )?;
+                self.last.blue = (new_upper_blue as u16) << 8 | self.last.blue & 0x00FF;
             }
             self.last.pack_into(buf);
             Ok(())
@@ -387,7 +387,7 @@ pub mod v1 {
                     &mut encoder,
                     i32::from(upper_byte(self.last.blue)),
                     i32::from(upper_byte(current_point.blue)),
-                    UPPER_GREEN_BYTE_CONTEXT,
+                    UPPER_BLUE_BYTE_CONTEXT,
                 )?;
             }
             self.last = current_point;
-- 
2.43.0


From 76bfb3b5221a68e6a39412d319dfe8939f8b4d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 04/38] fix: wavepackets with big offsets/sizes or only a
 change of a zero's sign were altered

---
 src/las/wavepacket.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/las/wavepacket.rs b/src/las/wavepacket.rs
index 583c8a5..1fc91c6 100644
--- a/src/las/wavepacket.rs
+++ b/src/las/wavepacket.rs
@@ -166,8 +166,10 @@ pub mod v1 {
                     current_wavepacket.offset = self.last_wavepacket.offset;
                 }
                 1 => {
-                    current_wavepacket.offset =
-                        self.last_wavepacket.offset + u64::from(self.last_wavepacket.size);
+                    current_wavepacket.offset = self
+                        .last_wavepacket
+                        .offset
+                        .wrapping_add(u64::from(self.last_wavepacket.size));
                 }
                 2 => {
                     self.last_offset_diff =
@@ -283,7 +285,8 @@ pub mod v1 {
                 u32::from(current_item.descriptor_index),
             )?;
 
-            let offset_diff_64 = current_item.offset as i64 - self.last_wavepacket.offset as i64;
+            let offset_diff_64 =
+                (current_item.offset as i64).wrapping_sub(self.last_wavepacket.offset as i64);
             let offset_diff_32 = offset_diff_64 as i32;
 
             if offset_diff_64 == offset_diff_32 as i64 {
@@ -291,7 +294,7 @@ pub mod v1 {
 
                 let new_syn_offset_diff = if offset_diff_32 == 0 {
                     0
-                } else if offset_diff_32 == self.last_wavepacket.size as i32 {
+                } else if offset_diff_64 == i64::from(self.last_wavepacket.size) {
                     1
                 } else {
                     2
@@ -613,7 +616,6 @@ mod v3_v4 {
             current_point: &[u8],
             context: &mut usize,
         ) -> std::io::Result<()> {
-            let current_wavepacket = LasWavepacket::unpack_from(current_point);
             // Index of the last item used as prediction
             let mut last_idx = self.last_context;
 
@@ -632,7 +634,11 @@ mod v3_v4 {
                 }
             }
 
-            if self.last_wavepackets[last_idx] != current_wavepacket {
+            // Compare the packed bytes, comparing the floating point values would
+            // miss some changes (e.g. 0.0 == -0.0)
+            let mut last_bytes = [0u8; LasWavepacket::SIZE];
+            self.last_wavepackets[last_idx].pack_into(&mut last_bytes);
+            if current_point[..LasWavepacket::SIZE] != last_bytes {
                 self.has_changed = true;
             }
 
-- 
2.43.0


From ba938eb9861c2ae491e5923297f7de3985caa340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 05/38] fix: keep the sign of zero gps times in Point14
 compression

---
 src/las/point6.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/las/point6.rs b/src/las/point6.rs
index 13323a2..f51a1c8 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -1666,7 +1666,10 @@ mod v3_v4 {
 
             // determine changed attributes
             let point_source_changed = last_point.point_source_id != current_point.point_source_id;
-            let gps_time_changed = last_point.gps_time != current_point.gps_time;
+            // Compare the bits, comparing the floating point values would
+            // miss the change between 0.0 and -0.0
+            let gps_time_changed =
+                last_point.gps_time.to_bits() != current_point.gps_time.to_bits();
             let scan_angle_changed = last_point.scan_angle_rank != current_point.scan_angle_rank;
 
             // get last and current return counts
-- 
2.43.0


From b7a88da6bb65d508b914b4e3fa933ad800713486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 06/38] fix: use the integer compressor of LASzip for extra
 bytes version 1

The version 1 of the extra bytes was compressed the way version 2 is, which
files written by LASzip do not use.
---
 src/las/extra_bytes.rs | 104 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 101 insertions(+), 3 deletions(-)

diff --git a/src/las/extra_bytes.rs b/src/las/extra_bytes.rs
index 51a3038..67d1d20 100644
--- a/src/las/extra_bytes.rs
+++ b/src/las/extra_bytes.rs
@@ -26,9 +26,6 @@
 */
 //! Defines the different version of compressors and decompressors for ExtraBytes contained in points
 
-/// Just re-export v1 as v2 as they are both the same implementation
-pub use v1 as v2;
-
 pub trait LasExtraBytes {
     fn extra_bytes(&self) -> &[u8];
     fn set_extra_bytes(&mut self, extra_bytes: &[u8]);
@@ -65,6 +62,107 @@ impl LasExtraBytes for ExtraBytes {
 }
 
 pub mod v1 {
+    //! Each extra byte is compressed using its previous value as the prediction,
+    //! with an integer compressor that has one context per extra byte
+    use std::io::{Read, Write};
+
+    use crate::compressors::{IntegerCompressor, IntegerCompressorBuilder};
+    use crate::decoders::ArithmeticDecoder;
+    use crate::decompressors::{IntegerDecompressor, IntegerDecompressorBuilder};
+    use crate::encoders::ArithmeticEncoder;
+    use crate::record::{FieldCompressor, FieldDecompressor};
+
+    pub struct LasExtraByteCompressor {
+        last_bytes: Vec<u8>,
+        ic_byte: IntegerCompressor,
+    }
+
+    impl LasExtraByteCompressor {
+        pub fn new(count: usize) -> Self {
+            Self {
+                last_bytes: vec![0u8; count],
+                ic_byte: IntegerCompressorBuilder::new()
+                    .bits(8)
+                    .contexts(count as u32)
+                    .build_initialized(),
+            }
+        }
+    }
+
+    impl<W: Write> FieldCompressor<W> for LasExtraByteCompressor {
+        fn size_of_field(&self) -> usize {
+            self.last_bytes.len()
+        }
+
+        fn compress_first(&mut self, dst: &mut W, buf: &[u8]) -> std::io::Result<()> {
+            self.last_bytes.copy_from_slice(buf);
+            dst.write_all(buf)
+        }
+
+        fn compress_with(
+            &mut self,
+            mut encoder: &mut ArithmeticEncoder<W>,
+            buf: &[u8],
+        ) -> std::io::Result<()> {
+            for (i, (last, current)) in self.last_bytes.iter_mut().zip(buf).enumerate() {
+                self.ic_byte.compress(
+                    &mut encoder,
+                    i32::from(*last),
+                    i32::from(*current),
+                    i as u32,
+                )?;
+                *last = *current;
+            }
+            Ok(())
+        }
+    }
+
+    pub struct LasExtraByteDecompressor {
+        last_bytes: Vec<u8>,
+        ic_byte: IntegerDecompressor,
+    }
+
+    impl LasExtraByteDecompressor {
+        pub fn new(count: usize) -> Self {
+            Self {
+                last_bytes: vec![0u8; count],
+                ic_byte: IntegerDecompressorBuilder::new()
+                    .bits(8)
+                    .contexts(count as u32)
+                    .build_initialized(),
+            }
+        }
+    }
+
+    impl<R: Read> FieldDecompressor<R> for LasExtraByteDecompressor {
+        fn size_of_field(&self) -> usize {
+            self.last_bytes.len()
+        }
+
+        fn decompress_first(&mut self, src: &mut R, first_point: &mut [u8]) -> std::io::Result<()> {
+            src.read_exact(first_point)?;
+            self.last_bytes.copy_from_slice(first_point);
+            Ok(())
+        }
+
+        fn decompress_with(
+            &mut self,
+            mut decoder: &mut ArithmeticDecoder<R>,
+            buf: &mut [u8],
+        ) -> std::io::Result<()> {
+            for (i, last) in self.last_bytes.iter_mut().enumerate() {
+                *last = self
+                    .ic_byte
+                    .decompress(&mut decoder, i32::from(*last), i as u32)?
+                    as u8;
+            }
+            buf.copy_from_slice(&self.last_bytes);
+            Ok(())
+        }
+    }
+}
+
+pub mod v2 {
     //! The Algorithm is simple:
     //! encode the difference between byte for each extra bytes
     use std::io::{Read, Write};
-- 
2.43.0


From 63cd0fb39a30ae31d076ad4af3ee49e51a06fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 07/38] fix: do not write chunks without points

finish_current_chunk called twice (or before any point), empty slices given
to compress_chunks and done() following compress_chunks wrote a chunk without
points that the decompressors cannot read, and made the sequential and the
parallel compressors write different files.
---
 src/laszip/parallel/compression.rs   |  2 ++
 src/laszip/sequential/compression.rs | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 49369f8..2228f63 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -331,6 +331,8 @@ where
 
     let chunks = chunks
         .into_par_iter()
+        // A chunk without points could not be read back
+        .filter(|data| !data.as_ref().is_empty())
         .map(|data| {
             let slc = data.as_ref();
             let mut output = Cursor::new(Vec::<u8>::new());
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 192a88b..18481d9 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -138,8 +138,10 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         if self.chunk_start_pos == 0 {
             self.reserve_offset_to_chunk_table()?;
         }
-        self.record_compressor.done()?;
-        self.update_chunk_table()?;
+        if self.current_chunk_entry.point_count != 0 {
+            self.record_compressor.done()?;
+            self.update_chunk_table()?;
+        }
         let stream = self.record_compressor.get_mut();
         chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
         self.chunk_table.write_to(stream, &self.vlr)?;
@@ -225,6 +227,11 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
 
     #[inline]
     fn finish_current_chunk_impl(&mut self) -> std::io::Result<()> {
+        if self.current_chunk_entry.point_count == 0 {
+            // A chunk always starts with a point stored as is,
+            // a chunk without points could not be read back
+            return Ok(());
+        }
         self.record_compressor.done()?;
         self.record_compressor.reset();
         self.record_compressor
-- 
2.43.0


From 1cec35023848847fac51aeccdb7f158ccdd31597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 08/38] fix: report the end of the points instead of reading
 past the last chunk

With variable-size chunks, asking for a point past the last one indexed the
chunk table out of bounds, and chunks without points were not skipped.
---
 src/laszip/sequential/decompression.rs | 39 ++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 34653c6..2ea2aff 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -144,6 +144,10 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk += 1;
         }
 
+        if self.chunk_points_read == 0 {
+            self.move_to_chunk_with_points()?;
+        }
+
         self.record_decompressor.decompress_next(&mut out)?;
         self.chunk_points_read += 1;
 
@@ -274,6 +278,41 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.record_decompressor.get()
     }
 
+    /// When about to read the first point of a chunk, checks that there is one left
+    /// and skips the chunks without points.
+    fn move_to_chunk_with_points(&mut self) -> std::io::Result<()> {
+        let Some(seek_info) = &self.seek_info else {
+            return Ok(());
+        };
+        let chunk_table = &seek_info.chunk_table;
+
+        let first_chunk = self.current_chunk;
+        while self.current_chunk < chunk_table.len()
+            && chunk_table[self.current_chunk].point_count == 0
+        {
+            self.current_chunk += 1;
+        }
+
+        if self.current_chunk >= chunk_table.len() {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "no chunks available in chunk table",
+            ));
+        }
+
+        if self.current_chunk != first_chunk {
+            let chunk_start = seek_info.data_start
+                + chunk_table[..self.current_chunk]
+                    .iter()
+                    .map(|entry| entry.byte_count)
+                    .sum::<u64>();
+            self.record_decompressor
+                .get_mut()
+                .seek(SeekFrom::Start(chunk_start))?;
+        }
+        Ok(())
+    }
+
     #[inline(always)]
     fn reset_for_new_chunk(&mut self) {
         self.chunk_points_read = 0;
-- 
2.43.0


From aa33f293b3a780473dea9d4b4fd92b46641c450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:10 +0000
Subject: [PATCH 09/38] fix: seek to the right point with variable-size chunks
 and in the last chunk

The position in the chunk was computed modulo the size of that chunk, and the
points of the last chunk whose bytes are all in the decoder were skipped.
---
 src/laszip/chunk_table.rs              |  8 +++
 src/laszip/sequential/decompression.rs | 78 +++++++++++---------------
 2 files changed, 42 insertions(+), 44 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a9c5b96..a17bef3 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -213,6 +213,14 @@ impl ChunkTable {
         }
     }
 
+    /// Returns the number of points in the chunks that are before the one at `chunk_index`
+    pub(crate) fn num_points_before(&self, chunk_index: usize) -> u64 {
+        self.0[..chunk_index]
+            .iter()
+            .map(|entry| entry.point_count)
+            .sum()
+    }
+
     /// Returns the position one must seek to, to reach the beginning of
     /// the given chunk index.
     ///
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 2ea2aff..8d91358 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -195,19 +195,13 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
     /// and then we have to decompress points in the chunk until we reach the
     /// one we want.
     pub fn seek(&mut self, point_idx: u64) -> crate::Result<()> {
-        let SeekInfo {
-            data_start,
-            chunk_table,
-        } = self.seek_info.as_ref().ok_or(MissingChunkTable)?;
-
-        let chunk_info = chunk_table
-            .chunk_of_point(point_idx)
-            .map(|(idx, offset)| (idx, offset + data_start));
+        let seek_info = self.seek_info.as_ref().ok_or(MissingChunkTable)?;
+        let offset_to_chunk_table = seek_info.offset_to_chunk_table();
+        let chunk_table = &seek_info.chunk_table;
 
-        if let Some((chunk_of_point, start_of_chunk)) = chunk_info {
-            self.current_chunk = chunk_of_point as usize;
-            let delta = point_idx % chunk_table[self.current_chunk].point_count;
-            let seeked_point_belong_to_last_chunk = chunk_of_point == (chunk_table.len() - 1);
+        if let Some((chunk_of_point, offset)) = chunk_table.chunk_of_point(point_idx) {
+            let start_of_chunk = seek_info.data_start + offset;
+            let delta = point_idx - chunk_table.num_points_before(chunk_of_point);
             // When the index of the point belongs to the last chunk
             // we try to be careful as that point may not exist, and there may be a
             // case where we would be reading the chunk table data as if it were point data.
@@ -217,44 +211,30 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             //
             // This is a safeguard, but we expect caller to not do this mistake
             // (They should have access to the number of points in the file, we don't)
-            if seeked_point_belong_to_last_chunk
-                && self.vlr.compressor != CompressorType::LayeredChunked
-            {
-                let mut tmp_out = vec![0u8; self.record_decompressor.record_size()];
-                self.get_mut().seek(SeekFrom::Start(start_of_chunk))?;
-
-                self.reset_for_new_chunk();
-                let offset_to_chunk_table = self
-                    .seek_info
-                    .as_ref()
-                    .map(SeekInfo::offset_to_chunk_table)
-                    .unwrap();
-
-                for _i in 0..delta {
-                    self.decompress_one(&mut tmp_out)?;
-                    let current_pos = self.get_mut().seek(SeekFrom::Current(0))?;
-
-                    if current_pos >= offset_to_chunk_table {
-                        self.get_mut().seek(SeekFrom::End(0))?;
-                        return Ok(());
-                    }
-                }
-            } else {
-                self.get_mut().seek(SeekFrom::Start(start_of_chunk))?;
-                self.reset_for_new_chunk();
-                let mut tmp_out = vec![0u8; self.record_decompressor.record_size()];
+            let could_read_chunk_table = chunk_of_point == (chunk_table.len() - 1)
+                && self.vlr.compressor != CompressorType::LayeredChunked;
+
+            self.get_mut().seek(SeekFrom::Start(start_of_chunk))?;
+            self.current_chunk = chunk_of_point;
+            self.reset_for_new_chunk();
+
+            let mut tmp_out = vec![0u8; self.record_decompressor.record_size()];
+            for _i in 0..delta {
+                self.decompress_one(&mut tmp_out)?;
 
-                for _i in 0..delta {
-                    self.decompress_one(&mut tmp_out)?;
+                if could_read_chunk_table {
+                    // The decoder reads in advance, so the last byte of the chunk
+                    // may be consumed before its last point is decompressed
+                    let current_pos = self.get_mut().stream_position()?;
+                    if current_pos > offset_to_chunk_table {
+                        return self.seek_past_last_point();
+                    }
                 }
             }
         } else {
             // the requested point it out of bounds (ie higher than the number of
             // points compressed)
-
-            // Seek to the end so that the next call to decompress causes en error
-            // like "Failed to fill whole buffer (seeking past end is allowed by the Seek Trait)
-            self.record_decompressor.get_mut().seek(SeekFrom::End(0))?;
+            self.seek_past_last_point()?;
         }
         Ok(())
     }
@@ -278,6 +258,16 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.record_decompressor.get()
     }
 
+    /// Makes the next call to decompress cause an error
+    fn seek_past_last_point(&mut self) -> crate::Result<()> {
+        if let Some(seek_info) = &self.seek_info {
+            self.current_chunk = seek_info.chunk_table.len();
+        }
+        self.reset_for_new_chunk();
+        self.get_mut().seek(SeekFrom::End(0))?;
+        Ok(())
+    }
+
     /// When about to read the first point of a chunk, checks that there is one left
     /// and skips the chunks without points.
     fn move_to_chunk_with_points(&mut self) -> std::io::Result<()> {
-- 
2.43.0


From cf0c19d6b400a31fb4ba978555877cda594b2f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:48 +0000
Subject: [PATCH 10/38] fix: parallel decompression of more points than there
 are is an error

It was a failed debug assertion or an out of bounds slice.
---
 src/laszip/parallel/decompression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 29c1eaa..c363cee 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -140,10 +140,14 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             )));
         }
 
+        if num_points < num_requested_points_left {
+            return Err(LasZipError::IoError(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "not enough points in the chunks left",
+            )));
+        }
+
         debug_assert!(num_chunks_to_decompress >= 1);
-        debug_assert!(num_points >= num_requested_points_left);
-        // TODO if num_points >= num_requested_points_left then the user ask to decompress more points
-        //      than there are
 
         // Read the necessary compressed bytes into our internal buffer
         self.internal_buffer.resize(num_bytes_to_read, 0u8);
-- 
2.43.0


From fedf03fe59a665f931ca284b1762fbe2bc5daccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 11/38] fix: parallel seek with variable-size chunks,
 selections and past the end

The position in the chunk was computed modulo the (meaningless) chunk size of
the VLR, the selection was ignored, seeking past the end or into the missing
part of the last chunk left the decompressor ready to read other chunks from
the wrong position, and a short read of the source was not completed.
---
 src/laszip/parallel/decompression.rs | 45 +++++++++++++++-------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index c363cee..c304c38 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -222,9 +222,11 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         self.rest.set_position(0);
         self.rest.get_mut().clear();
 
-        let chunk_info = self.chunk_table.chunk_of_point(index);
+        // Until we have the points of the chunk we are going to,
+        // there is nothing that can be read
+        self.last_chunk_read = self.chunk_table.len() as isize - 1;
 
-        let (chunk_of_point, byte_offset) = match chunk_info {
+        let (chunk_of_point, byte_offset) = match self.chunk_table.chunk_of_point(index) {
             Some(v) => v,
             None => {
                 let _ = self.source.seek(SeekFrom::End(0))?;
@@ -232,43 +234,44 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             }
         };
 
+        let entry = self.chunk_table[chunk_of_point];
         let start_of_chunk_pos = self.start_of_data + byte_offset;
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
-        self.internal_buffer
-            .resize(self.chunk_table[chunk_of_point].byte_count as usize, 0u8);
-        self.source.read(&mut self.internal_buffer)?;
+        self.internal_buffer.resize(entry.byte_count as usize, 0u8);
+        self.source.read_exact(&mut self.internal_buffer)?;
 
         // Completely decompress the chunk
+        let point_size = self.vlr.items_size() as usize;
         let num_bytes = match self.vlr.num_bytes_in_decompressed_chunk() {
             crate::laszip::vlr::DecompressedChunkSize::Fixed { num_bytes } => num_bytes,
             crate::laszip::vlr::DecompressedChunkSize::Variable {
                 num_bytes_per_point,
-            } => num_bytes_per_point * self.chunk_table[chunk_of_point].point_count as usize,
+            } => num_bytes_per_point * entry.point_count as usize,
         };
-        self.rest.get_mut().resize(num_bytes, 0u8);
+        let mut points = vec![0u8; num_bytes];
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
         )?;
+        decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
-        if is_last_chunk {
-            let num_bytes_decompressed =
-                decompressor.decompress_until_end_of_file(self.rest.get_mut())?;
-            let num_points_in_last_chunk = num_bytes_decompressed / self.vlr.items_size() as usize;
-            let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-            if pos_in_chunk as usize >= num_points_in_last_chunk as usize {
-                // Make the rest appear as fully consumed to
-                // force EOF error on next decompression
-                self.rest.set_position(self.rest.get_ref().len() as u64);
-                return Ok(());
-            }
+        if is_last_chunk && !self.vlr.uses_variable_size_chunks() {
+            let num_bytes_decompressed = decompressor.decompress_until_end_of_file(&mut points)?;
+            points.truncate(num_bytes_decompressed);
         } else {
-            decompressor.decompress_many(self.rest.get_mut())?;
+            decompressor.decompress_many(&mut points)?;
         }
+
         // This effectively discard points that were
         // before the one we just seeked to
-        let pos_in_chunk = index % self.vlr.chunk_size() as u64;
-        self.rest.set_position(pos_in_chunk * self.vlr.items_size());
+        let pos_in_chunk = index - self.chunk_table.num_points_before(chunk_of_point);
+        let num_bytes_to_skip = pos_in_chunk * point_size as u64;
+        let num_bytes_in_chunk = points.len() as u64;
+        self.rest = std::io::Cursor::new(points);
+        // If the point does not exist, the rest appears as fully consumed
+        // to force EOF error on next decompression
+        self.rest
+            .set_position(num_bytes_to_skip.min(num_bytes_in_chunk));
         self.last_chunk_read = chunk_of_point as isize;
         Ok(())
     }
-- 
2.43.0


From 4f57466050d1347ea6728c2ab238ad6f4079f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 12/38] fix: par_decompress_buffer dropped the last bytes of
 the last chunk

The bytes of the points start after the offset to the chunk table, so their end
is also shifted.
---
 src/laszip/parallel/decompression.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index c304c38..e4f8191 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -330,7 +330,15 @@ pub fn par_decompress_buffer(
         .map(|entry| entry.byte_count as usize)
         .sum::<usize>();
 
-    let compressed_points = &compressed_points_data[std::mem::size_of::<i64>()..num_point_bytes];
+    let start_of_points = std::mem::size_of::<i64>();
+    let compressed_points = compressed_points_data
+        .get(start_of_points..start_of_points + num_point_bytes)
+        .ok_or_else(|| {
+            LasZipError::IoError(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "chunks end after the end of the buffer",
+            ))
+        })?;
     par_decompress(
         compressed_points,
         decompressed_points,
-- 
2.43.0


From 16bb589522dcd3def714a362f92ddb62dc0b47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:11 +0000
Subject: [PATCH 13/38] fix: par_decompress with an incomplete last chunk or
 missing data

The chunk table of a fixed-size chunks file counts full chunks only, which made
par_decompress, par_decompress_selective and par_decompress_buffer panic on most
files. Missing compressed bytes or points are now an error.
---
 src/laszip/parallel/decompression.rs | 33 +++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index e4f8191..30c91fb 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -361,10 +361,37 @@ pub fn par_decompress_selective(
     selection: DecompressionSelection,
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
-    let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
-    let counts = chunk_table
+
+    let num_compressed_bytes = chunk_table
+        .iter()
+        .fold(0u64, |sum, entry| sum.saturating_add(entry.byte_count));
+    let num_decompressed_bytes = chunk_table
         .iter()
-        .map(|entry| (entry.point_count * laz_vlr.items_size()) as usize);
+        .fold(0u64, |sum, entry| sum.saturating_add(entry.point_count))
+        .saturating_mul(laz_vlr.items_size());
+    if num_compressed_bytes > compressed_points.len() as u64
+        || num_decompressed_bytes < decompressed_points.len() as u64
+    {
+        return Err(LasZipError::IoError(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "not enough points in the chunks",
+        )));
+    }
+
+    let sizes = chunk_table.iter().map(|entry| entry.byte_count as usize);
+    // The last chunk may have less points than what is in the chunk table
+    // when fixed-size chunks are used, the caller knows how many points there are
+    let counts =
+        chunk_table
+            .iter()
+            .scan(decompressed_points.len() as u64, |num_bytes_left, entry| {
+                let num_bytes = entry
+                    .point_count
+                    .saturating_mul(laz_vlr.items_size())
+                    .min(*num_bytes_left);
+                *num_bytes_left -= num_bytes;
+                Some(num_bytes as usize)
+            });
     let input_chunks_iter = ChunksIrregular::new(compressed_points, sizes);
     let output_chunks_iter = ChunksIrregularMut::new(decompressed_points, counts);
 
-- 
2.43.0


From bc8406a42d7b9731447ff0fc55c1c4cd2d494c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:12 +0000
Subject: [PATCH 14/38] fix: do not return undecoded bytes after a failed
 parallel decompression

---
 src/laszip/parallel/decompression.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 30c91fb..eab0b85 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -209,8 +209,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 Ok(())
             },
         );
-        res1?;
-        res2?;
+        if let Err(err) = res1.and(res2) {
+            // Do not hand out bytes that were not decompressed
+            self.rest.get_mut().clear();
+            self.rest.set_position(0);
+            return Err(err);
+        }
 
         self.last_chunk_read += num_chunks_to_decompress as isize;
         Ok(())
-- 
2.43.0


From 6957b8d573e832b97c1f4a5a849543dbcea5933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 15/38] fix: decoding after an error or from invalid bytes
 panicked

Once the input ended, the decoder was left in a state that made later
calls index out of bounds or divide by zero. It now keeps reporting the
end of the data, and values that no encoder writes are an error.
---
 src/compressors.rs   |  4 +--
 src/decoders.rs      | 61 +++++++++++++++++++++++++++++++++++++-------
 src/decompressors.rs |  8 +++---
 3 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/src/compressors.rs b/src/compressors.rs
index 38bd104..aa37936 100644
--- a/src/compressors.rs
+++ b/src/compressors.rs
@@ -148,9 +148,9 @@ impl IntegerCompressor {
         let mut corr = real.wrapping_sub(pred);
         // we fold the corrector into the interval [ corr_min  ...  corr_max ]
         if corr < self.corr_min {
-            corr += self.corr_range as i32;
+            corr = corr.wrapping_add(self.corr_range as i32);
         } else if corr > self.corr_max {
-            corr -= self.corr_range as i32;
+            corr = corr.wrapping_sub(self.corr_range as i32);
         }
 
         let m_bit = &mut self.m_bits[context as usize];
diff --git a/src/decoders.rs b/src/decoders.rs
index d557ad9..452d98a 100644
--- a/src/decoders.rs
+++ b/src/decoders.rs
@@ -99,6 +99,14 @@ pub const AC_MAX_LENGTH: u32 = 0xFFFF_FFFF;
 // maximum AC interval length
 pub const AC_MIN_LENGTH: u32 = 0x0100_0000;
 
+#[cold]
+fn invalid_state() -> std::io::Error {
+    std::io::Error::new(
+        std::io::ErrorKind::UnexpectedEof,
+        "the compressed data ended early or is invalid",
+    )
+}
+
 pub struct ArithmeticDecoder<T: Read> {
     in_stream: T,
     value: u32,
@@ -123,12 +131,30 @@ impl<T: Read> ArithmeticDecoder<T> {
         let mut v = [0u8; 4];
         self.in_stream.read_exact(&mut v)?;
 
-        self.value =
+        let value =
             u32::from(v[0]) << 24 | u32::from(v[1]) << 16 | u32::from(v[2]) << 8 | u32::from(v[3]);
+        if value >= self.length {
+            // the value is always below the length: no encoder writes this
+            self.length = 0;
+            return Err(invalid_state());
+        }
+        self.value = value;
         Ok(())
     }
 
+    /// Once the input ended in the middle of a symbol (or could not be read)
+    /// nothing more can be decoded until the decoder is reset.
+    #[inline]
+    fn check_state(&self) -> std::io::Result<()> {
+        if self.length < AC_MIN_LENGTH {
+            Err(invalid_state())
+        } else {
+            Ok(())
+        }
+    }
+
     pub fn decode_bit(&mut self, model: &mut models::ArithmeticBitModel) -> std::io::Result<u32> {
+        self.check_state()?;
         let x = model.bit_0_prob * (self.length >> models::BM_LENGTH_SHIFT); // product l x p0
 
         let sym = self.value >= x;
@@ -151,6 +177,7 @@ impl<T: Read> ArithmeticDecoder<T> {
     }
 
     pub fn decode_symbol(&mut self, model: &mut models::ArithmeticModel) -> std::io::Result<u32> {
+        self.check_state()?;
         let mut sym;
         let mut n;
         let mut x;
@@ -159,12 +186,6 @@ impl<T: Read> ArithmeticDecoder<T> {
         if !model.decoder_table.is_empty() {
             // use table look-up for faster decoding
             self.length >>= DM_LENGTH_SHIFT;
-            if self.length == 0 {
-                return Err(std::io::Error::new(
-                    std::io::ErrorKind::UnexpectedEof,
-                    "ArithmeticDecoder length is zero",
-                ));
-            }
             let dv = self.value / self.length;
             let t = dv >> model.table_shift;
 
@@ -224,9 +245,15 @@ impl<T: Read> ArithmeticDecoder<T> {
     }
 
     pub fn read_bit(&mut self) -> std::io::Result<u32> {
+        self.check_state()?;
         // decode symbol, change length
         self.length >>= 1;
         let sym = self.value / self.length;
+        if sym > 1 {
+            // no encoder writes such a value
+            self.length = 0;
+            return Err(invalid_state());
+        }
         // update interval
         self.value -= self.length * sym;
 
@@ -244,9 +271,15 @@ impl<T: Read> ArithmeticDecoder<T> {
             let tmpl = self.read_bits(bits)? << 16;
             Ok(tmpl | tmp)
         } else {
+            self.check_state()?;
             // decode symbol, change length
             self.length >>= bits;
             let sym = self.value / self.length;
+            if sym >= (1 << bits) {
+                // no encoder writes such a value
+                self.length = 0;
+                return Err(invalid_state());
+            }
 
             // update interval
             self.value -= self.length * sym;
@@ -260,28 +293,38 @@ impl<T: Read> ArithmeticDecoder<T> {
 
     #[allow(dead_code)]
     fn read_byte(&mut self) -> std::io::Result<u8> {
+        self.check_state()?;
         // decode symbol, change length
         self.length >>= 8;
         let sym = self.value / self.length;
+        if sym >= (1 << 8) {
+            // no encoder writes such a value
+            self.length = 0;
+            return Err(invalid_state());
+        }
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 8));
         Ok(sym as u8)
     }
 
     fn read_short(&mut self) -> std::io::Result<u16> {
+        self.check_state()?;
         // decode symbol, change length
         self.length >>= 16;
         let sym = self.value / self.length;
+        if sym >= (1 << 16) {
+            // no encoder writes such a value
+            self.length = 0;
+            return Err(invalid_state());
+        }
         // update interval
         self.value -= self.length * sym;
         if self.length < AC_MIN_LENGTH {
             self.renorm_dec_interval()?;
         }
-        debug_assert!(sym < (1 << 16));
         Ok(sym as u16)
     }
 
diff --git a/src/decompressors.rs b/src/decompressors.rs
index ca99838..4590787 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -156,7 +156,7 @@ impl IntegerDecompressor {
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // if c is in the interval [ 2^(k-1)  ...  + 2^k - 1 ]
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
@@ -193,7 +193,7 @@ impl IntegerDecompressor {
                         // translate c back into its correct interval
                         if c >= (1u32 << (self.k - 1)) as i32 {
                             // so we translate c back into the interval [ 2^(k-1) + 1  ...  2^k ] by adding 1
-                            c += 1;
+                            c = c.wrapping_add(1);
                         } else {
                             // otherwise c is in the interval [ 0 ...  + 2^(k-1) - 1 ]
                             // so we translate c back into the interval [ - (2^k - 1)  ...  - (2^(k-1)) ] by subtracting (2^k - 1)
@@ -211,9 +211,9 @@ impl IntegerDecompressor {
         //--- read corrector ---//
         let mut real = pred.wrapping_add(corr);
         if real < 0 {
-            real += self.corr_range as i32;
+            real = real.wrapping_add(self.corr_range as i32);
         } else if real >= self.corr_range as i32 {
-            real -= self.corr_range as i32
+            real = real.wrapping_sub(self.corr_range as i32);
         }
         Ok(real)
     }
-- 
2.43.0


From 23e29ac3312a32630765abc293143da9d6cd1051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:15 +0000
Subject: [PATCH 16/38] fix: chunk table entries above 2 GiB were sign extended
 when read

and the announced number of chunks was trusted to allocate memory
---
 src/laszip/chunk_table.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index a17bef3..da7da17 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -16,6 +16,10 @@ use crate::{LasZipError, LazVlr};
 const POINT_COUNT_CONTEXT: u32 = 0;
 const BYTE_COUNT_CONTEXT: u32 = 1;
 
+/// When reading a chunk table, maximum number of entries for which memory is
+/// allocated before knowing that they exist
+const MAX_PREALLOCATED_ENTRIES: usize = 4096;
+
 /// An entry describe one chunk and contains 2 information:
 ///
 /// - The number of bytes in the compressed chunk
@@ -151,7 +155,9 @@ impl ChunkTable {
         let mut decoder = ArithmeticDecoder::new(&mut src);
         decoder.read_init_bytes()?;
 
-        let mut chunk_table = ChunkTable::with_capacity(number_of_chunks as usize);
+        // The number of chunks cannot be trusted until the entries were actually read
+        let mut chunk_table =
+            ChunkTable::with_capacity((number_of_chunks as usize).min(MAX_PREALLOCATED_ENTRIES));
         let mut previous_entry = ChunkTableEntry::default();
         for _ in 1..=number_of_chunks {
             let mut current_entry = ChunkTableEntry {
@@ -159,17 +165,17 @@ impl ChunkTable {
                 byte_count: 0,
             };
             if contains_point_count {
-                current_entry.point_count = u64::from_le(decompressor.decompress(
+                current_entry.point_count = u64::from(decompressor.decompress(
                     &mut decoder,
                     previous_entry.point_count as i32,
                     POINT_COUNT_CONTEXT,
-                )? as u64);
+                )? as u32);
             }
-            current_entry.byte_count = u64::from_le(decompressor.decompress(
+            current_entry.byte_count = u64::from(decompressor.decompress(
                 &mut decoder,
                 previous_entry.byte_count as i32,
                 BYTE_COUNT_CONTEXT,
-            )? as u64);
+            )? as u32);
 
             chunk_table.0.push(current_entry);
             previous_entry = current_entry;
-- 
2.43.0


From 75a6a8d2d3feae3704dae92df85d5082a6713b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:48 +0000
Subject: [PATCH 17/38] fix: do not allocate memory for layers before reading
 them

---
 src/las/utils.rs | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/las/utils.rs b/src/las/utils.rs
index fe31a2b..372371e 100644
--- a/src/las/utils.rs
+++ b/src/las/utils.rs
@@ -154,6 +154,28 @@ pub fn i32_quantize(n: f32) -> i32 {
     }
 }
 
+/// Appends exactly `num_bytes` read from `src` to `buffer`.
+///
+/// `num_bytes` generally comes from the data being read, so it is not trusted
+/// to allocate memory: the buffer only grows as bytes are actually read.
+pub(crate) fn read_exact_into_vec<R: Read>(
+    src: &mut R,
+    num_bytes: u64,
+    buffer: &mut Vec<u8>,
+) -> std::io::Result<()> {
+    const MAX_PREALLOCATION: u64 = 1024 * 1024;
+
+    buffer.reserve(num_bytes.min(MAX_PREALLOCATION) as usize);
+    let num_read = src.take(num_bytes).read_to_end(buffer)?;
+    if num_read as u64 != num_bytes {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "failed to fill whole buffer",
+        ));
+    }
+    Ok(())
+}
+
 /// Copies `num_bytes` from `src` into the `decoder`.
 ///
 /// `num_bytes` should be the layer size.
@@ -174,8 +196,8 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
     let inner_vec = decoder.get_mut().get_mut();
     if is_requested {
         if num_bytes > 0 {
-            inner_vec.resize(num_bytes, 0);
-            src.read_exact(&mut inner_vec[..num_bytes])?;
+            inner_vec.clear();
+            read_exact_into_vec(src, num_bytes as u64, inner_vec)?;
             decoder.read_init_bytes()?;
             Ok(true)
         } else {
@@ -188,8 +210,11 @@ pub(crate) fn copy_bytes_into_decoder<R: Read + Seek>(
                 // This is mainly to accommodate python bindings,
                 // where the stream might not be seekable and return an error
                 // so we instead try to read data to skip it
-                let mut unused_data = vec![0u8; num_bytes];
-                src.read_exact(unused_data.as_mut_slice())?;
+                let num_skipped =
+                    std::io::copy(&mut src.take(num_bytes as u64), &mut std::io::sink())?;
+                if num_skipped != num_bytes as u64 {
+                    return Err(std::io::ErrorKind::UnexpectedEof.into());
+                }
             }
         }
         Ok(false)
-- 
2.43.0


From 55fc3f36bd2c86ebe4ab899b1e5ba0e4a26d7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 18/38] fix: use the number of points stored in layered chunks

reading variable-size layered chunks without a chunk table relied on it
but it was never set
---
 src/record.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/record.rs b/src/record.rs
index da13149..1b92e1a 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -351,6 +351,8 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     fields_sizes: Vec<usize>,
     record_size: usize,
     context: usize,
+    /// Number of points in the chunk, as stored in it
+    record_count: u64,
 }
 
 impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
@@ -364,6 +366,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             fields_sizes: vec![],
             record_size: 0,
             context: 0,
+            record_count: 0,
         }
     }
 
@@ -454,6 +457,10 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.record_size
     }
 
+    fn record_count(&self) -> u64 {
+        self.record_count
+    }
+
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
         let decompressors_and_data =
             self.field_decompressors
@@ -472,7 +479,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 )?;
             }
 
-            let _count = self.input.read_u32::<LittleEndian>()?;
+            self.record_count = u64::from(self.input.read_u32::<LittleEndian>()?);
             for field in &mut self.field_decompressors {
                 field.read_layers_sizes(&mut self.input)?;
             }
@@ -493,6 +500,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.is_first_decompression = true;
         self.field_decompressors.clear();
         self.record_size = 0;
+        self.record_count = 0;
         self.fields_sizes.clear();
     }
 
-- 
2.43.0


From 020b00a6e24b67cfd59a248358e1035ce6b8e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 19/38] fix: points could not be read sequentially when the
 chunk table is missing

The position in the source was lost when looking for the table.
---
 src/laszip/sequential/decompression.rs | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 8d91358..e83d899 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -42,6 +42,22 @@ impl SeekInfo {
     }
 }
 
+/// Moves to the first chunk when the chunk table could not be read.
+fn skip_chunk_table_offset<R: Read + Seek>(
+    source: &mut R,
+    start_of_data: Option<u64>,
+) -> std::io::Result<()> {
+    // Reading the chunk table may have failed after having moved the source
+    // (e.g. when the writer did not write the table), so first go back to where it was.
+    //
+    // When the source is not seekable, then it did not move.
+    if let Some(start_of_data) = start_of_data {
+        source.seek(SeekFrom::Start(start_of_data))?;
+    }
+    let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
+    source.read_exact(&mut tmp)
+}
+
 /// LasZip decompressor that decompresses points.
 ///
 /// Supports both **fixed-size** and **variable-size** chunks.
@@ -74,6 +90,8 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
+        // Not known if the source is not seekable
+        let start_of_data = source.stream_position().ok();
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
@@ -85,13 +103,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 match (result, vlr.uses_variable_size_chunks()) {
                     (Ok(info), _) => Some(info),
                     (Err(_), false) => {
-                        // The error is probably due to a seek error
-                        // (Eg for a source that is not actually seekable).
-                        // So we _may_ still be at the start of point data,
-                        // we need to skip the chunk table offset otherwise
-                        // decompression won't be correct.
-                        let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                        source.read_exact(&mut tmp)?;
+                        skip_chunk_table_offset(&mut source, start_of_data)?;
                         None
                     }
                     (Err(err), true) => {
@@ -107,9 +119,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 // So its fine if we don't have a chunk table
                 let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
                 if seek_info.is_none() {
-                    // Same as in PointWiseChunked
-                    let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-                    source.read_exact(&mut tmp)?;
+                    skip_chunk_table_offset(&mut source, start_of_data)?;
                 }
                 seek_info
             }
-- 
2.43.0


From e3babe77acadec93bcd2d7f87ab92a757816eb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 20/38] fix: point-wise streams with a chunk size of zero could
 not be read

---
 src/laszip/sequential/decompression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index e83d899..86d9bb1 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -162,7 +162,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         self.chunk_points_read += 1;
 
         if self.chunk_points_read == 1 {
-            if self.vlr.uses_variable_size_chunks() {
+            if self.vlr.compressor == CompressorType::PointWise {
+                self.num_points_in_chunk = u64::from(u32::MAX);
+            } else if self.vlr.uses_variable_size_chunks() {
                 self.num_points_in_chunk = match (&self.seek_info, self.vlr.compressor) {
                     (Some(seek_info), _) => seek_info.chunk_table[self.current_chunk].point_count,
                     (None, CompressorType::LayeredChunked) => {
@@ -174,8 +176,6 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                         panic!("Variable-size chunks, but no chunk table");
                     }
                 }
-            } else if self.vlr.compressor == CompressorType::PointWise {
-                self.num_points_in_chunk = u64::from(u32::MAX);
             } else {
                 self.num_points_in_chunk = u64::from(self.vlr.chunk_size());
             }
-- 
2.43.0


From eee085afd33e1eee3b987df0955f57b2a7f78345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 21/38] fix: parallel decompression allocated memory from
 untrusted sizes

before knowing whether the points exist
---
 src/las/mod.rs                       |  2 +-
 src/laszip/details.rs                | 50 ++++++++++++++++++++++++++++
 src/laszip/parallel/decompression.rs | 45 ++++++++++++-------------
 3 files changed, 73 insertions(+), 24 deletions(-)

diff --git a/src/las/mod.rs b/src/las/mod.rs
index 734eca4..ab6b8f7 100644
--- a/src/las/mod.rs
+++ b/src/las/mod.rs
@@ -7,7 +7,7 @@ pub use pointtypes::{
 };
 
 #[macro_use]
-mod utils;
+pub(crate) mod utils;
 pub(crate) mod pointtypes;
 
 #[deprecated(
diff --git a/src/laszip/details.rs b/src/laszip/details.rs
index 9448d03..24d06f9 100644
--- a/src/laszip/details.rs
+++ b/src/laszip/details.rs
@@ -62,3 +62,53 @@ pub(super) fn record_compressor_from_laz_items<'a, W: Write + Send + Sync + 'a>(
     compressor.set_fields_from(items)?;
     Ok(compressor)
 }
+
+/// Appends at most `max_num_bytes` bytes of decompressed points to `out`.
+///
+/// `max_num_bytes` should be a multiple of the size of a point. It generally comes from the
+/// file being read, so it is not trusted to allocate memory: `out` only grows
+/// as points are actually decompressed.
+///
+/// This stops when the compressed data ends,
+/// returns the number of bytes that were appended.
+pub(super) fn decompress_at_most<R>(
+    decompressor: &mut (dyn RecordDecompressor<R> + Send + Sync + '_),
+    max_num_bytes: usize,
+    out: &mut Vec<u8>,
+) -> std::io::Result<usize> {
+    const MAX_BATCH_SIZE: usize = 1024 * 1024;
+
+    let point_size = decompressor.record_size();
+    let batch_size = (MAX_BATCH_SIZE / point_size).max(1) * point_size;
+
+    let mut num_bytes_left = max_num_bytes;
+    while num_bytes_left > 0 {
+        let num_bytes = num_bytes_left.min(batch_size);
+        let start = out.len();
+        out.resize(start + num_bytes, 0);
+        let num_decompressed = decompressor.decompress_until_end_of_file(&mut out[start..])?;
+        num_bytes_left -= num_decompressed;
+        if num_decompressed < num_bytes {
+            out.truncate(start + num_decompressed);
+            break;
+        }
+    }
+    Ok(max_num_bytes - num_bytes_left)
+}
+
+/// Like [`decompress_at_most`] but not having enough data is an error.
+#[cfg(feature = "parallel")]
+pub(super) fn decompress_exact<R>(
+    decompressor: &mut (dyn RecordDecompressor<R> + Send + Sync + '_),
+    num_bytes: usize,
+    out: &mut Vec<u8>,
+) -> std::io::Result<()> {
+    let num_decompressed = decompress_at_most(decompressor, num_bytes, out)?;
+    if num_decompressed != num_bytes {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::UnexpectedEof,
+            "not enough points in the chunk",
+        ));
+    }
+    Ok(())
+}
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index eab0b85..01389ac 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -4,8 +4,11 @@ use rayon::prelude::*;
 
 use crate::byteslice::ChunksIrregularMut;
 use crate::las::selective::DecompressionSelection;
+use crate::las::utils::read_exact_into_vec;
 use crate::laszip::chunk_table::{ChunkTable, ChunkTableEntry};
-use crate::laszip::details::record_decompressor_from_laz_items;
+use crate::laszip::details::{
+    decompress_at_most, decompress_exact, record_decompressor_from_laz_items,
+};
 use crate::laszip::CompressorType;
 use crate::{LasZipError, LazVlr};
 
@@ -61,14 +64,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         }
         let chunk_table = ChunkTable::read_from(&mut source, &vlr)?;
         let start_of_data = source.seek(SeekFrom::Current(0))?;
-        let biggest_chunk = chunk_table
-            .as_ref()
-            .into_iter()
-            .map(|entry| entry.point_count)
-            .max()
-            .unwrap_or(0);
-        let vec = Vec::<u8>::with_capacity(biggest_chunk as usize);
-        let rest = std::io::Cursor::new(vec);
+        let rest = std::io::Cursor::new(Vec::<u8>::new());
 
         Ok(Self {
             source,
@@ -150,8 +146,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         debug_assert!(num_chunks_to_decompress >= 1);
 
         // Read the necessary compressed bytes into our internal buffer
-        self.internal_buffer.resize(num_bytes_to_read, 0u8);
-        self.source.read_exact(&mut self.internal_buffer)?;
+        self.internal_buffer.clear();
+        read_exact_into_vec(
+            &mut self.source,
+            num_bytes_to_read as u64,
+            &mut self.internal_buffer,
+        )?;
 
         // 3. Decompress
         // The idea is that if we have `n` chunks to decompress
@@ -197,13 +197,9 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 if !vlr.uses_variable_size_chunks() && end_index == chunk_table_len {
                     // When fixed-size chunks are used, for the last chunk, the number of point
                     // is unknown, so we have to decompress it until an end of file appears
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    let num_actually_decompressed =
-                        decompressor.decompress_until_end_of_file(rest.get_mut())?;
-                    rest.get_mut().resize(num_actually_decompressed, 0u8);
+                    decompress_at_most(&mut *decompressor, num_bytes_left, rest.get_mut())?;
                 } else {
-                    rest.get_mut().resize(num_bytes_left, 0u8);
-                    decompressor.decompress_many(rest.get_mut())?;
+                    decompress_exact(&mut *decompressor, num_bytes_left, rest.get_mut())?;
                 }
                 rest.set_position(0);
                 Ok(())
@@ -241,8 +237,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         let entry = self.chunk_table[chunk_of_point];
         let start_of_chunk_pos = self.start_of_data + byte_offset;
         self.source.seek(SeekFrom::Start(start_of_chunk_pos))?;
-        self.internal_buffer.resize(entry.byte_count as usize, 0u8);
-        self.source.read_exact(&mut self.internal_buffer)?;
+        self.internal_buffer.clear();
+        read_exact_into_vec(
+            &mut self.source,
+            entry.byte_count,
+            &mut self.internal_buffer,
+        )?;
 
         // Completely decompress the chunk
         let point_size = self.vlr.items_size() as usize;
@@ -252,7 +252,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
                 num_bytes_per_point,
             } => num_bytes_per_point * entry.point_count as usize,
         };
-        let mut points = vec![0u8; num_bytes];
+        let mut points = vec![];
         let mut decompressor = record_decompressor_from_laz_items(
             self.vlr.items(),
             std::io::Cursor::new(&self.internal_buffer),
@@ -260,10 +260,9 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
         decompressor.set_selection(self.selection);
         let is_last_chunk = chunk_of_point == (self.chunk_table.len() - 1);
         if is_last_chunk && !self.vlr.uses_variable_size_chunks() {
-            let num_bytes_decompressed = decompressor.decompress_until_end_of_file(&mut points)?;
-            points.truncate(num_bytes_decompressed);
+            decompress_at_most(&mut *decompressor, num_bytes, &mut points)?;
         } else {
-            decompressor.decompress_many(&mut points)?;
+            decompress_exact(&mut *decompressor, num_bytes, &mut points)?;
         }
 
         // This effectively discard points that were
-- 
2.43.0


From 9c02f4fa0324baa29b0da3dc25f5e3738720fc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:49 +0000
Subject: [PATCH 22/38] fix: appending to a stream without points panicked,
 sizes read were trusted

A point count of zero underflowed, and the sizes of the last chunk were
used to allocate memory before reading it.
---
 src/laszip/sequential/appender.rs | 45 ++++++++++++++-----------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index d4366a8..66c547a 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -1,4 +1,5 @@
-use crate::laszip::details::record_decompressor_from_laz_items;
+use crate::las::utils::read_exact_into_vec;
+use crate::laszip::details::{decompress_at_most, record_decompressor_from_laz_items};
 use crate::laszip::{ChunkTable, CompressorType};
 use crate::{LasZipCompressor, LasZipError, LazCompressor, LazVlr};
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
@@ -40,7 +41,10 @@ where
     let mut chunk_table = ChunkTable::read_from(&mut data, &vlr)?;
 
     let mut data_to_recompress = vec![];
-    if !chunk_table.is_empty() {
+    if point_count == 0 {
+        // There is nothing to keep
+        chunk_table.truncate(0);
+    } else if !chunk_table.is_empty() {
         let (chunk_index, chunk_start_pos) = chunk_table
             .chunk_of_point(point_count - 1)
             .unwrap_or_else(|| {
@@ -52,40 +56,31 @@ where
 
         data.seek(SeekFrom::Current(chunk_start_pos.try_into().unwrap()))?;
 
-        let points_before_chunk = chunk_table[..chunk_index]
-            .iter()
-            .map(|entry| entry.point_count)
-            .sum::<u64>();
         // This cannot overflow as with the chunk_index will be the last known chunk
         // if point_count was out of count
-        let mut points_to_read = point_count - points_before_chunk;
-
-        if !vlr.uses_variable_size_chunks()
-            && chunk_index == chunk_table.len() - 1
-            && points_to_read == 0
-        {
-            // If we are here, that means we should skip the chunk
-            // but, we chose not to completely trust the point count we received
-            points_to_read = u64::from(vlr.chunk_size());
-        }
+        //
+        // The chunk does not contain more points than what the table says,
+        // even when the point count we received does.
+        let entry = chunk_table[chunk_index];
+        let points_to_read =
+            (point_count - chunk_table.num_points_before(chunk_index)).min(entry.point_count);
 
         if points_to_read > 0 {
-            let size_of_chunk = chunk_table[chunk_index].byte_count;
             // In PointWiseChunked, we don't know if the last chunk is complete or not
             // so we read it, rewrite it so the compressor is in the right state to append points
-            let mut chunk_data = vec![0u8; size_of_chunk as usize];
-
-            data.read_exact(&mut chunk_data)?;
+            let mut chunk_data = vec![];
+            read_exact_into_vec(&mut data, entry.byte_count, &mut chunk_data)?;
 
             let mut chunk_data = Cursor::new(chunk_data);
             let mut decompressor =
                 record_decompressor_from_laz_items(vlr.items(), &mut chunk_data)?;
 
-            // Resize the output buffer so that we decompresse data until its either full,
-            // or EOF was reached
-            data_to_recompress.resize((points_to_read * vlr.items_size()) as usize, 0);
-            let byte_len = decompressor.decompress_until_end_of_file(&mut data_to_recompress)?;
-            data_to_recompress.resize(byte_len, 0);
+            // Decompress data until we have all the points, or EOF was reached
+            decompress_at_most(
+                &mut *decompressor,
+                (points_to_read * vlr.items_size()) as usize,
+                &mut data_to_recompress,
+            )?;
         }
 
         // Drop chunk table entry/entries that are after the our point
-- 
2.43.0


From 4fa1d657ee2a10147717b944928a2cda9eef1600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 23/38] fix: the parallel compressor allocated memory for a
 whole chunk up front

which aborts with the very big chunk sizes a vlr may contain
---
 src/laszip/parallel/compression.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 2228f63..2ffae82 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -8,6 +8,9 @@ use crate::laszip::details::record_compressor_from_laz_items;
 use crate::laszip::{CompressorType, DecompressedChunkSize};
 use crate::{LasZipError, LazVlr};
 
+/// Maximum number of bytes allocated for the points of a chunk before having them
+const MAX_PREALLOCATION: usize = 4 * 1024 * 1024;
+
 /// LasZip compressor that compresses using multiple threads
 ///
 /// This supports both **variable-size** and **fixed-size** chunks.
@@ -63,7 +66,8 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
 
         let mut rest = Vec::<u8>::new();
         if let DecompressedChunkSize::Fixed { num_bytes } = vlr.num_bytes_in_decompressed_chunk() {
-            rest.reserve(num_bytes);
+            // The vlr may come from a file, so the chunk size cannot be trusted
+            rest.reserve(num_bytes.min(MAX_PREALLOCATION));
         }
 
         Ok(Self {
-- 
2.43.0


From b17a90d6cf75aaea1379801bf30f46bcf5f83c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 24/38] fix: appended chunks had wrong sizes and variable-size
 chunks were not supported

The sequential appender counted the bytes of the chunks it kept in the first
chunk it appended. The parallel appender panicked on variable-size chunks,
and the sequential one merged the chunks added with the last existing chunk.
---
 src/laszip/parallel/appender.rs      |  2 +-
 src/laszip/parallel/compression.rs   | 24 ++++++++++++++++++++++++
 src/laszip/sequential/appender.rs    | 15 +++++++--------
 src/laszip/sequential/compression.rs | 21 +++++++++++++++++++++
 4 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index 1d1fd01..b0a8fb0 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -21,7 +21,7 @@ where
             vlr,
             point_count,
             ParLasZipCompressor::new,
-            ParLasZipCompressor::get_mut,
+            ParLasZipCompressor::resume,
         )?;
 
         Ok(Self {
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 2ffae82..6013edb 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -225,6 +225,30 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         &self.dest
     }
 
+    /// Continues after chunks that are already in the destination
+    ///
+    /// `last_points` are the points of the last chunk, which gets written again.
+    ///
+    /// The offset to the chunk table must have been reserved.
+    pub(crate) fn resume(
+        &mut self,
+        num_bytes_in_chunks: u64,
+        last_points: &[u8],
+    ) -> crate::Result<()> {
+        let first_chunk_pos = self.table_offset as u64 + ChunkTable::OFFSET_SIZE as u64;
+        self.dest
+            .seek(SeekFrom::Start(first_chunk_pos + num_bytes_in_chunks))?;
+        if last_points.is_empty() {
+            return Ok(());
+        }
+        if self.vlr.uses_variable_size_chunks() {
+            self.compress_chunks([last_points])?;
+        } else {
+            self.compress_many(last_points)?;
+        }
+        Ok(())
+    }
+
     /// Returns the position in the file where the offset to chunk
     /// table is.
     pub(crate) fn chunk_table_position_offset(&self) -> i64 {
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 66c547a..5efc9f7 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -16,17 +16,20 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 /// * If `point_count` is greater than the actual number of points,
 ///   the function will stop at when we know for sure no other points
 ///   could be present
+///
+/// The `resume` function receives the compressor, the number of bytes of the chunks that are kept,
+/// and the points of the last chunk, it must skip the former and compress the latter.
 pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
     mut data: W,
     vlr: LazVlr,
     point_count: u64,
     compressor_creator: F,
-    get_mut_dest_of_compressor: F2,
+    resume: F2,
 ) -> crate::Result<(Compressor, ChunkTable)>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor) -> &mut W,
+    F2: FnOnce(&mut Compressor, u64, &[u8]) -> crate::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -94,11 +97,7 @@ where
     // offset is.
     compressor.reserve_offset_to_chunk_table()?;
     let last_chunk_pos = chunk_table.chunk_position(chunk_table.len()).unwrap();
-    get_mut_dest_of_compressor(&mut compressor).seek(SeekFrom::Current(last_chunk_pos as i64))?;
-    // Rewrite the last chunk we read
-    if !data_to_recompress.is_empty() {
-        compressor.compress_many(&data_to_recompress)?;
-    }
+    resume(&mut compressor, last_chunk_pos, &data_to_recompress)?;
 
     Ok((compressor, chunk_table))
 }
@@ -120,7 +119,7 @@ where
             vlr,
             point_count,
             LasZipCompressor::new,
-            LasZipCompressor::get_mut,
+            LasZipCompressor::resume,
         )?;
 
         Ok(Self {
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index 18481d9..e11befb 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -202,6 +202,27 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.record_compressor.get()
     }
 
+    /// Continues after chunks that are already in the destination
+    ///
+    /// `last_points` are the points of the last chunk, which gets written again.
+    ///
+    /// The offset to the chunk table must have been reserved.
+    pub(crate) fn resume(
+        &mut self,
+        num_bytes_in_chunks: u64,
+        last_points: &[u8],
+    ) -> crate::Result<()> {
+        self.chunk_start_pos += num_bytes_in_chunks;
+        let chunk_start_pos = SeekFrom::Start(self.chunk_start_pos);
+        self.get_mut().seek(chunk_start_pos)?;
+        self.compress_many(last_points)?;
+        if self.vlr.uses_variable_size_chunks() {
+            // That chunk is complete, points added belong to new chunks
+            self.finish_current_chunk_impl()?;
+        }
+        Ok(())
+    }
+
     /// Returns the position in the file where the offset to chunk
     /// table is.
     pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-- 
2.43.0


From 985715d91d0fb82b87cc156e3e3aa918cc0c5073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 25/38] fix: reject laszip vlrs without items or with
 inconsistent item sizes

using them panicked
---
 src/laszip/vlr.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 3c2d58c..83ba146 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -176,6 +176,9 @@ impl LazItem {
         let size = src.read_u16::<LittleEndian>()?;
         let item_type = LazItemType::from_u16(item_type, size)
             .ok_or_else(|| LasZipError::UnknownLazItem(item_type))?;
+        if size != item_type.size() {
+            return Err(invalid_vlr("the size of an item does not match its type").into());
+        }
         Ok(Self {
             item_type,
             size,
@@ -327,12 +330,19 @@ impl LazItemRecordBuilder {
     }
 }
 
+fn invalid_vlr(message: &'static str) -> std::io::Error {
+    std::io::Error::new(std::io::ErrorKind::InvalidData, message)
+}
+
 fn read_laz_items_from<R: Read>(mut src: &mut R) -> crate::Result<Vec<LazItem>> {
     let num_items = src.read_u16::<LittleEndian>()?;
     let mut items = Vec::<LazItem>::with_capacity(num_items as usize);
     for _ in 0..num_items {
         items.push(LazItem::read_from(&mut src)?)
     }
+    if items.iter().all(|item| item.size == 0) {
+        return Err(invalid_vlr("the laszip vlr does not describe any item").into());
+    }
     Ok(items)
 }
 
@@ -513,7 +523,7 @@ impl LazVlr {
     /// expected size of points (uncompressed).
     #[inline]
     pub fn items_size(&self) -> u64 {
-        u64::from(self.items.iter().map(|item| item.size).sum::<u16>())
+        self.items.iter().map(|item| u64::from(item.size)).sum()
     }
 
     /// returns how many bytes a decompressed chunk contains
-- 
2.43.0


From 2573889ef296670a599d28c35066d6598e3824be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 26/38] fix: reading invalid LAS/LAZ files panicked

Errors of the vlrs and decompressor are returned, formats 4, 5, 9, 10 and
compressed ids have their number of extra bytes, and the memory allocated
does not depend on the point count of the header.
---
 src/las/file.rs | 76 +++++++++++++++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 49e3aa0..f35cc97 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -9,6 +9,7 @@ use std::io::{Read, Seek, SeekFrom};
 use byteorder::{LittleEndian, ReadBytesExt};
 
 use crate::laszip::{LasZipDecompressor, LazVlr};
+use crate::LasZipError;
 
 /// LAS header with only the minimum information
 /// to be able to read points contained in a LAS file.
@@ -57,18 +58,23 @@ impl QuickHeader {
     }
 
     pub fn num_extra_bytes(&self) -> u16 {
-        let point_size_wo_extra = match self.point_format_id {
-            0 => 20,
-            1 => 28,
-            2 => 26,
-            3 => 34,
-            6 => 30,
-            7 => 36,
-            8 => 38,
-            _ => panic!("Unknown fmt id"),
-        };
+        let point_size_wo_extra =
+            match point_format_id_compressed_to_uncompressd(self.point_format_id) {
+                0 => 20,
+                1 => 28,
+                2 => 26,
+                3 => 34,
+                4 => 57,
+                5 => 63,
+                6 => 30,
+                7 => 36,
+                8 => 38,
+                9 => 59,
+                10 => 67,
+                _ => panic!("Unknown fmt id"),
+            };
 
-        self.point_size - point_size_wo_extra
+        self.point_size.saturating_sub(point_size_wo_extra)
     }
 }
 
@@ -106,18 +112,33 @@ impl Vlr {
     }
 }
 
+/// Returns `None` if there is no (valid) laszip vlr
 pub fn read_vlrs_and_get_laszip_vlr<R: Read>(src: &mut R, header: &QuickHeader) -> Option<LazVlr> {
+    try_read_laszip_vlr(src, header).unwrap_or(None)
+}
+
+fn try_read_laszip_vlr<R: Read>(
+    src: &mut R,
+    header: &QuickHeader,
+) -> std::io::Result<Option<LazVlr>> {
     let mut laszip_vlr = None;
     for _i in 0..header.num_vlrs {
-        let vlr = Vlr::read_from(src).unwrap();
+        let vlr = Vlr::read_from(src)?;
         if vlr.record_id == 22204
             && String::from_utf8_lossy(&vlr.user_id).trim_end_matches(|c| c as u8 == 0)
                 == "laszip encoded"
         {
-            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).unwrap());
+            laszip_vlr = Some(LazVlr::read_from(vlr.data.as_slice()).map_err(invalid_data)?);
         }
     }
-    laszip_vlr
+    Ok(laszip_vlr)
+}
+
+fn invalid_data<E>(error: E) -> std::io::Error
+where
+    E: Into<Box<dyn std::error::Error + Send + Sync>>,
+{
+    std::io::Error::new(std::io::ErrorKind::InvalidData, error)
 }
 
 pub fn read_header_and_vlrs<R: Read + Seek>(
@@ -125,7 +146,7 @@ pub fn read_header_and_vlrs<R: Read + Seek>(
 ) -> std::io::Result<(QuickHeader, Option<LazVlr>)> {
     let hdr = QuickHeader::read_from(src)?;
     src.seek(SeekFrom::Start(hdr.header_size as u64))?;
-    let laz_vlr = read_vlrs_and_get_laszip_vlr(src, &hdr);
+    let laz_vlr = try_read_laszip_vlr(src, &hdr)?;
     src.seek(SeekFrom::Start(hdr.offset_to_points as u64))?;
     Ok((hdr, laz_vlr))
 }
@@ -174,16 +195,22 @@ impl<'a> SimpleReader<'a> {
     pub fn new<R: Read + Seek + Send + Sync + 'a>(mut src: R) -> std::io::Result<Self> {
         let mut header = QuickHeader::read_from(&mut src)?;
         src.seek(SeekFrom::Start(header.header_size as u64))?;
-        let laszip_vlr = read_vlrs_and_get_laszip_vlr(&mut src, &header);
+        let laszip_vlr = try_read_laszip_vlr(&mut src, &header)?;
         src.seek(SeekFrom::Start(header.offset_to_points as u64))?;
         let point_reader: Box<dyn LasPointReader> =
             if is_point_format_compressed(header.point_format_id) {
+                let laszip_vlr = laszip_vlr
+                    .ok_or_else(|| invalid_data("Compressed data, but no Laszip Vlr found"))?;
+                if laszip_vlr.items_size() != u64::from(header.point_size) {
+                    return Err(invalid_data(
+                        "The laszip vlr does not match the size of the points",
+                    ));
+                }
                 Box::new(
-                    LasZipDecompressor::new(
-                        src,
-                        laszip_vlr.expect("Compressed data, but no Laszip Vlr found"),
-                    )
-                    .unwrap(),
+                    LasZipDecompressor::new(src, laszip_vlr).map_err(|err| match err {
+                        LasZipError::IoError(err) => err,
+                        err => invalid_data(err),
+                    })?,
                 )
             } else {
                 Box::new(RawPointReader { src })
@@ -214,14 +241,9 @@ impl<'a> SimpleReader<'a> {
     pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> std::io::Result<usize> {
         assert!(buf.is_empty());
         let mut num_read = 0usize;
-        buf.resize(
-            self.header.num_points as usize * self.header.point_size as usize,
-            0u8,
-        );
-        let slc = buf.as_mut_slice();
         while let Some(point) = self.read_next() {
             let point = point?;
-            slc[num_read * point.len()..(num_read + 1) * point.len()].copy_from_slice(point);
+            buf.extend_from_slice(point);
             num_read += 1;
         }
         Ok(num_read)
-- 
2.43.0


From b5a5aeda0d5e03ec141fb335ad064be048f454f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 27/38] fix: endless recursion and loop on invalid data

gps times switching sequence over and over overflowed the stack, points of
size 0 in a LAS header were read forever.
---
 src/las/file.rs   |  3 +++
 src/las/gps.rs    | 26 ++++++++++++++++++--------
 src/las/point6.rs | 14 +++++++++++---
 3 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index f35cc97..1853e77 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -197,6 +197,9 @@ impl<'a> SimpleReader<'a> {
         src.seek(SeekFrom::Start(header.header_size as u64))?;
         let laszip_vlr = try_read_laszip_vlr(&mut src, &header)?;
         src.seek(SeekFrom::Start(header.offset_to_points as u64))?;
+        if header.point_size == 0 {
+            return Err(invalid_data("The size of the points cannot be 0"));
+        }
         let point_reader: Box<dyn LasPointReader> =
             if is_point_format_compressed(header.point_format_id) {
                 let laszip_vlr = laszip_vlr
diff --git a/src/las/gps.rs b/src/las/gps.rs
index 68be49c..9c546a8 100644
--- a/src/las/gps.rs
+++ b/src/las/gps.rs
@@ -872,9 +872,23 @@ pub mod v2 {
 
         fn decompress_with(
             &mut self,
-            mut decoder: &mut ArithmeticDecoder<R>,
+            decoder: &mut ArithmeticDecoder<R>,
             buf: &mut [u8],
         ) -> std::io::Result<()> {
+            // Invalid data could switch many times, so this is not recursive
+            while self.decompress_or_switch_sequence(decoder)? {}
+            self.common.last_gps_times[self.common.last].pack_into(buf);
+            Ok(())
+        }
+    }
+
+    impl GpsTimeDecompressor {
+        /// Returns true if instead of a gps time a switch to another sequence was decoded,
+        /// in that case the gps time is still to be decoded.
+        fn decompress_or_switch_sequence<R: Read>(
+            &mut self,
+            mut decoder: &mut ArithmeticDecoder<R>,
+        ) -> std::io::Result<bool> {
             let mut multi: i32;
             debug_assert!(self.common.last < 4);
             unsafe {
@@ -946,7 +960,7 @@ pub mod v2 {
                     } else if multi > 2 {
                         // we switch to another sequence
                         self.common.last = (self.common.last + multi as usize - 2) & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 } else {
                     multi = decoder.decode_symbol(&mut self.common.gps_time_multi)? as i32;
@@ -1136,14 +1150,10 @@ pub mod v2 {
                         self.common.last = (self.common.last + multi as usize
                             - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                             & 3;
-                        self.decompress_with(&mut decoder, buf)?;
+                        return Ok(true);
                     }
                 }
-                self.common
-                    .last_gps_times
-                    .get_unchecked(self.common.last)
-                    .pack_into_unchecked(buf);
-                Ok(())
+                Ok(false)
             }
         }
     }
diff --git a/src/las/point6.rs b/src/las/point6.rs
index f51a1c8..6b5a633 100644
--- a/src/las/point6.rs
+++ b/src/las/point6.rs
@@ -687,6 +687,14 @@ mod v3_v4 {
 
     impl<const VERSION: usize> LasPoint6DecompressorImpl<VERSION> {
         fn read_gps_time(&mut self) -> std::io::Result<()> {
+            // Invalid data could switch many times, so this is not recursive
+            while self.read_gps_time_or_switch_sequence()? {}
+            Ok(())
+        }
+
+        /// Returns true if instead of a gps time a switch to another sequence was decoded,
+        /// in that case the gps time is still to be decoded.
+        fn read_gps_time_or_switch_sequence(&mut self) -> std::io::Result<bool> {
             let the_context = &mut self.contexts[self.current_context];
 
             let mut multi: i32;
@@ -736,7 +744,7 @@ mod v3_v4 {
                     // We switch to another sequence
                     the_context.gps_sequences.last =
                         (the_context.gps_sequences.last + multi as usize - 1) & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             } else {
                 multi = self
@@ -874,10 +882,10 @@ mod v3_v4 {
                         + multi as usize
                         - LASZIP_GPS_TIME_MULTI_CODE_FULL as usize)
                         & 3;
-                    self.read_gps_time()?;
+                    return Ok(true);
                 }
             }
-            Ok(())
+            Ok(false)
         }
     }
 
-- 
2.43.0


From d0fb6c8f7ccafb7801588085061d54d45005b9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 28/38] fix: points were returned after the end of layered
 chunks

---
 src/laszip/sequential/decompression.rs | 18 +++++++++++++++---
 src/record.rs                          | 17 +++++++++++++++++
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 86d9bb1..306fc41 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -221,8 +221,9 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             //
             // This is a safeguard, but we expect caller to not do this mistake
             // (They should have access to the number of points in the file, we don't)
-            let could_read_chunk_table = chunk_of_point == (chunk_table.len() - 1)
-                && self.vlr.compressor != CompressorType::LayeredChunked;
+            let is_last_chunk = chunk_of_point == (chunk_table.len() - 1);
+            let could_read_chunk_table =
+                is_last_chunk && self.vlr.compressor != CompressorType::LayeredChunked;
 
             self.get_mut().seek(SeekFrom::Start(start_of_chunk))?;
             self.current_chunk = chunk_of_point;
@@ -230,7 +231,18 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
 
             let mut tmp_out = vec![0u8; self.record_decompressor.record_size()];
             for _i in 0..delta {
-                self.decompress_one(&mut tmp_out)?;
+                match self.decompress_one(&mut tmp_out) {
+                    Ok(()) => {}
+                    Err(err)
+                        if err.kind() == std::io::ErrorKind::UnexpectedEof
+                            && is_last_chunk
+                            && !self.vlr.uses_variable_size_chunks() =>
+                    {
+                        // The last chunk has fewer points than what the table says
+                        return self.seek_past_last_point();
+                    }
+                    Err(err) => return Err(err.into()),
+                }
 
                 if could_read_chunk_table {
                     // The decoder reads in advance, so the last byte of the chunk
diff --git a/src/record.rs b/src/record.rs
index 1b92e1a..f928790 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -353,6 +353,8 @@ pub struct LayeredPointRecordDecompressor<'a, R: Read + Seek> {
     context: usize,
     /// Number of points in the chunk, as stored in it
     record_count: u64,
+    /// Number of points of the chunk that were decompressed
+    num_decompressed: u64,
 }
 
 impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
@@ -367,6 +369,7 @@ impl<'a, R: Read + Seek> LayeredPointRecordDecompressor<'a, R> {
             record_size: 0,
             context: 0,
             record_count: 0,
+            num_decompressed: 0,
         }
     }
 
@@ -462,6 +465,18 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
     }
 
     fn decompress_next(&mut self, out: &mut [u8]) -> std::io::Result<()> {
+        // Layers that do not change have no data that could end,
+        // so the end of the chunk has to be checked
+        if !self.is_first_decompression
+            && self.record_count != 0
+            && self.num_decompressed >= self.record_count
+        {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::UnexpectedEof,
+                "no more points in the chunk",
+            ));
+        }
+
         let decompressors_and_data =
             self.field_decompressors
                 .iter_mut()
@@ -493,6 +508,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
                 field_decompressor.decompress_field_with(out_field_data, &mut self.context)?;
             }
         }
+        self.num_decompressed += 1;
         Ok(())
     }
 
@@ -501,6 +517,7 @@ impl<'a, R: Read + Seek> RecordDecompressor<R> for LayeredPointRecordDecompresso
         self.field_decompressors.clear();
         self.record_size = 0;
         self.record_count = 0;
+        self.num_decompressed = 0;
         self.fields_sizes.clear();
     }
 
-- 
2.43.0


From d3b618d3f82422687570c1b90bd9cb49bdb8775c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:09 +0000
Subject: [PATCH 29/38] fix: compressing in parallel with unsupported items
 panicked

---
 src/laszip/parallel/compression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 6013edb..17bcbf9 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -396,7 +396,8 @@ fn compress_one_chunk<W: Write + Seek + Send + Sync>(
 ) -> std::io::Result<u64> {
     let start = dest.seek(SeekFrom::Current(0))?;
     {
-        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest).unwrap();
+        let mut compressor = record_compressor_from_laz_items(&vlr.items(), &mut dest)
+            .map_err(|err| std::io::Error::new(std::io::ErrorKind::Other, err))?;
         compressor.compress_many(chunk_data)?;
         compressor.done()?;
     }
-- 
2.43.0


From 26a645098597c1125b9fc07428e9431bd76f0a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:39 +0000
Subject: [PATCH 30/38] fix: the builders asked for a version 2 of
 WavePacket13, which LASzip does not have

---
 src/las/pointtypes.rs | 22 +++++++++++-----------
 src/laszip/vlr.rs     |  2 +-
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/las/pointtypes.rs b/src/las/pointtypes.rs
index e3e88ac..e8e3a2e 100644
--- a/src/las/pointtypes.rs
+++ b/src/las/pointtypes.rs
@@ -339,11 +339,11 @@ impl Version2 for Point4 {
     fn version_2(num_extra_bytes: u16) -> Vec<LazItem> {
         vec_of_laz_items!(
             vec_capacity: 4,
-            version: 2,
-            extra_bytes_type: LazItemType::Byte(num_extra_bytes),
-            LazItemType::Point10,
-            LazItemType::GpsTime,
-            LazItemType::WavePacket13
+            extra_bytes_type: LazItemType::Byte(num_extra_bytes), version: 2,
+            LazItemType::Point10, version: 2,
+            LazItemType::GpsTime, version: 2,
+            // There is no version 2 of wave packets
+            LazItemType::WavePacket13, version: 1
         )
     }
 }
@@ -402,12 +402,12 @@ impl Version2 for Point5 {
     fn version_2(num_extra_bytes: u16) -> Vec<LazItem> {
         vec_of_laz_items!(
             vec_capacity: 5,
-            version: 2,
-            extra_bytes_type: LazItemType::Byte(num_extra_bytes),
-            LazItemType::Point10,
-            LazItemType::GpsTime,
-            LazItemType::RGB12,
-            LazItemType::WavePacket13
+            extra_bytes_type: LazItemType::Byte(num_extra_bytes), version: 2,
+            LazItemType::Point10, version: 2,
+            LazItemType::GpsTime, version: 2,
+            LazItemType::RGB12, version: 2,
+            // There is no version 2 of wave packets
+            LazItemType::WavePacket13, version: 1
         )
     }
 }
diff --git a/src/laszip/vlr.rs b/src/laszip/vlr.rs
index 83ba146..b9739d7 100644
--- a/src/laszip/vlr.rs
+++ b/src/laszip/vlr.rs
@@ -110,7 +110,7 @@ impl LazItemType {
             LazItemType::Point10 => 2,
             LazItemType::GpsTime => 2,
             LazItemType::RGB12 => 2,
-            LazItemType::WavePacket13 => 2,
+            LazItemType::WavePacket13 => 1,
             LazItemType::Point14 => 3,
             LazItemType::RGB14 => 3,
             LazItemType::RGBNIR14 => 3,
-- 
2.43.0


From 9f2276944226b235df5ca39babb77be39cc87ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 31/38] fix: par_compress and par_decompress accepted
 unsupported compressor types

---
 src/laszip/parallel/compression.rs   | 6 ++++++
 src/laszip/parallel/decompression.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 17bcbf9..c79c2d6 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -337,6 +337,12 @@ pub fn par_compress<W: Write>(
     debug_assert!(!laz_vlr.uses_variable_size_chunks());
     debug_assert_eq!(uncompressed_points.len() % laz_vlr.items_size() as usize, 0);
 
+    if laz_vlr.compressor != CompressorType::PointWiseChunked
+        && laz_vlr.compressor != CompressorType::LayeredChunked
+    {
+        return Err(LasZipError::UnsupportedCompressorType(laz_vlr.compressor));
+    }
+
     let point_size = laz_vlr.items_size() as usize;
     let points_per_chunk = laz_vlr.chunk_size() as usize;
     let chunk_size_in_bytes = points_per_chunk * point_size;
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 01389ac..91cd3e9 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -365,6 +365,12 @@ pub fn par_decompress_selective(
 ) -> crate::Result<()> {
     use crate::byteslice::ChunksIrregular;
 
+    if laz_vlr.compressor != CompressorType::PointWiseChunked
+        && laz_vlr.compressor != CompressorType::LayeredChunked
+    {
+        return Err(LasZipError::UnsupportedCompressorType(laz_vlr.compressor));
+    }
+
     let num_compressed_bytes = chunk_table
         .iter()
         .fold(0u64, |sum, entry| sum.saturating_add(entry.byte_count));
-- 
2.43.0


From 160099db8c19194977939c25d4ca0782b5355ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 32/38] fix: write_bits asserted wrongly when writing 32 bits

---
 src/encoders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index c127adc..8393cd3 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -281,7 +281,7 @@ impl<T: Write> ArithmeticEncoder<T> {
     }
 
     pub fn write_bits(&mut self, mut bits: u32, mut sym: u32) -> std::io::Result<()> {
-        debug_assert!(bits <= 32 && sym < (1u32 << bits));
+        debug_assert!(bits == 32 || (bits < 32 && sym < (1u32 << bits)));
 
         if bits > 19 {
             self.write_short((sym & u32::from(std::u16::MAX)) as u16)?;
-- 
2.43.0


From e256647b908d7863d845e9365b743b451a07b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 33/38] fix: 31 bit integers were decompressed wrongly

---
 src/decompressors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index 4590787..7852825 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -212,7 +212,7 @@ impl IntegerDecompressor {
         let mut real = pred.wrapping_add(corr);
         if real < 0 {
             real = real.wrapping_add(self.corr_range as i32);
-        } else if real >= self.corr_range as i32 {
+        } else if real as u32 >= self.corr_range {
             real = real.wrapping_sub(self.corr_range as i32);
         }
         Ok(real)
-- 
2.43.0


From 474d22ab88141720a8c0e46ec6321cf658a5252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 34/38] fix: the encoder lost a carry into bytes it had already
 written out

---
 src/encoders.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/encoders.rs b/src/encoders.rs
index 8393cd3..0e8c329 100644
--- a/src/encoders.rs
+++ b/src/encoders.rs
@@ -104,6 +104,9 @@ pub struct ArithmeticEncoder<T: Write> {
     base: u32,
     length: u32,
 
+    /// Bytes that left the buffer, but that a carry may still change
+    held_back: Vec<u8>,
+
     out_stream: T,
 }
 
@@ -120,6 +123,7 @@ impl<T: Write> ArithmeticEncoder<T> {
             end_byte,
             base: 0,
             length: decoders::AC_MAX_LENGTH,
+            held_back: vec![],
             out_stream,
         }
     }
@@ -132,6 +136,7 @@ impl<T: Write> ArithmeticEncoder<T> {
     pub fn reset(&mut self) {
         self.base = 0;
         self.length = decoders::AC_MAX_LENGTH;
+        self.held_back.clear();
         self.out_buffer.fill(0);
         self.out_byte = self.out_buffer.as_mut_ptr();
         self.end_byte = self.end_of_buffer();
@@ -159,6 +164,7 @@ impl<T: Write> ArithmeticEncoder<T> {
             self.propagate_carry();
         }
         self.renorm_enc_interval()?;
+        self.write_held_back()?;
 
         if self.end_byte != self.end_of_buffer() {
             debug_assert!(
@@ -371,9 +377,20 @@ impl<T: Write> ArithmeticEncoder<T> {
             self.out_byte.wrapping_sub(1)
         };
 
+        // first of the bytes of the buffer that are not written yet
+        let oldest = if self.end_byte == self.end_of_buffer() {
+            self.out_buffer.as_ptr()
+        } else {
+            self.end_byte
+        };
+
         unsafe {
             while *p == 0xFFu8 {
                 *p = 0;
+                if p.cast_const() == oldest {
+                    self.propagate_carry_to_held_back();
+                    return;
+                }
                 if p.cast_const() == self.out_buffer.as_ptr() {
                     p = self.end_of_buffer().wrapping_sub(1).cast_mut()
                 } else {
@@ -387,6 +404,23 @@ impl<T: Write> ArithmeticEncoder<T> {
         }
     }
 
+    fn propagate_carry_to_held_back(&mut self) {
+        for byte in self.held_back.iter_mut().rev() {
+            *byte = byte.wrapping_add(1);
+            if *byte != 0 {
+                break;
+            }
+        }
+    }
+
+    fn write_held_back(&mut self) -> std::io::Result<()> {
+        if !self.held_back.is_empty() {
+            self.out_stream.write_all(&self.held_back)?;
+            self.held_back.clear();
+        }
+        Ok(())
+    }
+
     fn renorm_enc_interval(&mut self) -> std::io::Result<()> {
         loop {
             debug_assert!(self.out_buffer.as_ptr() <= self.out_byte);
@@ -412,12 +446,23 @@ impl<T: Write> ArithmeticEncoder<T> {
     fn manage_out_buffer(&mut self) -> std::io::Result<()> {
         debug_assert!(self.out_byte.cast_const() == self.end_byte);
 
+        // a carry stops at the first byte that is not 0xFF
+        let last_half = unsafe {
+            std::slice::from_raw_parts(self.out_byte.wrapping_sub(AC_BUFFER_SIZE), AC_BUFFER_SIZE)
+        };
+        let carry_can_pass = last_half.iter().all(|byte| *byte == 0xFF);
+
         if self.out_byte.cast_const() == self.end_of_buffer() {
             self.out_byte = self.out_buffer.as_mut_ptr();
         }
 
         let slc = unsafe { std::slice::from_raw_parts(self.out_byte, AC_BUFFER_SIZE) };
-        self.out_stream.write_all(slc)?;
+        if carry_can_pass {
+            self.held_back.extend_from_slice(slc);
+        } else {
+            self.write_held_back()?;
+            self.out_stream.write_all(slc)?;
+        }
         self.end_byte = self.out_byte.wrapping_add(AC_BUFFER_SIZE);
 
         debug_assert!(self.end_byte > self.out_byte);
-- 
2.43.0


From 3d717b5bb4f7ef9a9720255367e47a20bc572b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 35/38] fix: opening a stream went on although the position of
 the source could not be read

---
 src/laszip/sequential/decompression.rs | 56 +++++++++++---------------
 1 file changed, 23 insertions(+), 33 deletions(-)

diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 306fc41..1611cdc 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -42,20 +42,25 @@ impl SeekInfo {
     }
 }
 
-/// Moves to the first chunk when the chunk table could not be read.
-fn skip_chunk_table_offset<R: Read + Seek>(
+/// Reads the chunk table when it is possible to, moves to the first chunk in any case.
+fn read_seek_info_if_possible<R: Read + Seek>(
     source: &mut R,
-    start_of_data: Option<u64>,
-) -> std::io::Result<()> {
-    // Reading the chunk table may have failed after having moved the source
-    // (e.g. when the writer did not write the table), so first go back to where it was.
-    //
-    // When the source is not seekable, then it did not move.
-    if let Some(start_of_data) = start_of_data {
-        source.seek(SeekFrom::Start(start_of_data))?;
+    vlr: &LazVlr,
+) -> std::io::Result<Option<SeekInfo>> {
+    // When the source is not seekable, then there is no need to try more than that
+    if let Ok(start_of_data) = source.stream_position() {
+        match SeekInfo::read_from(source, vlr) {
+            Ok(seek_info) => return Ok(Some(seek_info)),
+            Err(_) => {
+                // Reading the chunk table may have failed after having moved the source
+                // (e.g. when the writer did not write the table), so first go back to where it was.
+                source.seek(SeekFrom::Start(start_of_data))?;
+            }
+        }
     }
     let mut tmp = [0u8; ChunkTable::OFFSET_SIZE];
-    source.read_exact(&mut tmp)
+    source.read_exact(&mut tmp)?;
+    Ok(None)
 }
 
 /// LasZip decompressor that decompresses points.
@@ -90,38 +95,23 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
         vlr: LazVlr,
         selection: DecompressionSelection,
     ) -> crate::Result<Self> {
-        // Not known if the source is not seekable
-        let start_of_data = source.stream_position().ok();
         // The chunk table is not always mandatory when just reading data.
         let seek_info = match vlr.compressor {
             CompressorType::PointWise => {
                 // Everything is in one chunk, so we don't need a table
                 None
             }
-            CompressorType::PointWiseChunked => {
-                let result = SeekInfo::read_from(&mut source, &vlr);
-                match (result, vlr.uses_variable_size_chunks()) {
-                    (Ok(info), _) => Some(info),
-                    (Err(_), false) => {
-                        skip_chunk_table_offset(&mut source, start_of_data)?;
-                        None
-                    }
-                    (Err(err), true) => {
-                        // For for point wise chunked with variable size chunks,
-                        // we absolutely need the chunk table to be able to know when a
-                        // chunk ends.
-                        return Err(err);
-                    }
-                }
+            CompressorType::PointWiseChunked if vlr.uses_variable_size_chunks() => {
+                // For for point wise chunked with variable size chunks,
+                // we absolutely need the chunk table to be able to know when a
+                // chunk ends.
+                Some(SeekInfo::read_from(&mut source, &vlr)?)
             }
+            CompressorType::PointWiseChunked => read_seek_info_if_possible(&mut source, &vlr)?,
             CompressorType::LayeredChunked => {
                 // Layered Chunks embeds the point count at the start of the chunk
                 // So its fine if we don't have a chunk table
-                let seek_info = SeekInfo::read_from(&mut source, &vlr).ok();
-                if seek_info.is_none() {
-                    skip_chunk_table_offset(&mut source, start_of_data)?;
-                }
-                seek_info
+                read_seek_info_if_possible(&mut source, &vlr)?
             }
             _ => {
                 return Err(LasZipError::UnsupportedCompressorType(vlr.compressor));
-- 
2.43.0


From 63345c6703db432e560ae898b0f56bd91d8b6ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:32 +0000
Subject: [PATCH 36/38] fix: offset to the chunk table was written before the
 table

When writing stopped in between, over a file that had other bytes there,
readers took these bytes for the chunk table. As documented, the table is
written first, the offset is updated when the table is there.
---
 src/laszip/chunk_table.rs            | 21 +++++++++++++--------
 src/laszip/parallel/compression.rs   | 13 ++++++++-----
 src/laszip/sequential/compression.rs |  9 ++++++---
 3 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/laszip/chunk_table.rs b/src/laszip/chunk_table.rs
index da7da17..5dd29fd 100644
--- a/src/laszip/chunk_table.rs
+++ b/src/laszip/chunk_table.rs
@@ -345,27 +345,32 @@ where
     }
 }
 
-/// Updates the 'chunk table offset'
+/// Writes the chunk table then updates the 'chunk table offset'
 ///
-/// It is the first 8 byte (i64) of a Laszip compressed data
+/// The offset is the first 8 byte (i64) of a Laszip compressed data
 ///
-/// This function expects the position of the destination to be at the start of the chunk_table
-/// (whether it is written or not).
+/// This function expects the position of the destination to be where the chunk_table starts.
+/// The offset is only updated once the table is written, so that if writing stops
+/// before the end there is no offset to something that is not a complete table.
 ///
 /// This function also expects the i64 to have been already written/reserved
 /// (even if its garbage bytes / 0s)
 ///
-/// The position of the destination is untouched
+/// The position of the destination will be at the end of the chunk table
 ///
 /// `offset_pos`: position the function have to seek to, to be where the offset
 ///               should be updated.
-pub(super) fn update_chunk_table_offset<W: Write + Seek>(
+pub(super) fn write_chunk_table_and_offset<W: Write + Seek>(
     dst: &mut W,
+    chunk_table: &ChunkTable,
+    vlr: &LazVlr,
     offset_pos: SeekFrom,
 ) -> std::io::Result<()> {
-    let start_of_chunk_table_pos = dst.seek(SeekFrom::Current(0))?;
+    let start_of_chunk_table_pos = dst.stream_position()?;
+    chunk_table.write_to(&mut *dst, vlr)?;
+    let end_of_chunk_table_pos = dst.stream_position()?;
     dst.seek(offset_pos)?;
     dst.write_i64::<LittleEndian>(start_of_chunk_table_pos as i64)?;
-    dst.seek(SeekFrom::Start(start_of_chunk_table_pos))?;
+    dst.seek(SeekFrom::Start(end_of_chunk_table_pos))?;
     Ok(())
 }
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index c79c2d6..5d8d6ef 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -3,7 +3,7 @@ use std::io::{Seek, SeekFrom, Write};
 use byteorder::{LittleEndian, WriteBytesExt};
 use rayon::prelude::*;
 
-use crate::laszip::chunk_table::{update_chunk_table_offset, ChunkTable, ChunkTableEntry};
+use crate::laszip::chunk_table::{write_chunk_table_and_offset, ChunkTable, ChunkTableEntry};
 use crate::laszip::details::record_compressor_from_laz_items;
 use crate::laszip::{CompressorType, DecompressedChunkSize};
 use crate::{LasZipError, LazVlr};
@@ -204,8 +204,12 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
             // No call to compress_many was made
             self.reserve_offset_to_chunk_table()?;
         }
-        update_chunk_table_offset(&mut self.dest, SeekFrom::Start(self.table_offset as u64))?;
-        self.chunk_table.write_to(&mut self.dest, &self.vlr)?;
+        write_chunk_table_and_offset(
+            &mut self.dest,
+            &self.chunk_table,
+            &self.vlr,
+            SeekFrom::Start(self.table_offset as u64),
+        )?;
         Ok(())
     }
 
@@ -317,8 +321,7 @@ pub fn par_compress_buffer<W: Write + Seek>(
 
     let chunk_table = par_compress(dst, uncompressed_points, laz_vlr)?;
 
-    update_chunk_table_offset(dst, SeekFrom::Start(start_pos))?;
-    chunk_table.write_to(dst, laz_vlr)?;
+    write_chunk_table_and_offset(dst, &chunk_table, laz_vlr, SeekFrom::Start(start_pos))?;
     Ok(())
 }
 
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index e11befb..c23f530 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -143,9 +143,12 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
             self.update_chunk_table()?;
         }
         let stream = self.record_compressor.get_mut();
-        chunk_table::update_chunk_table_offset(stream, SeekFrom::Start(self.start_pos))?;
-        self.chunk_table.write_to(stream, &self.vlr)?;
-        Ok(())
+        chunk_table::write_chunk_table_and_offset(
+            stream,
+            &self.chunk_table,
+            &self.vlr,
+            SeekFrom::Start(self.start_pos),
+        )
     }
 
     /// Finished the current chunks.
-- 
2.43.0


From 17e03e3907c7c0117ffa5bfbe5e78dcf6fd0437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:14 +0000
Subject: [PATCH 37/38] fix: appending first wrote a table with only the added
 chunks

When writing stopped before that table was replaced with the complete one,
the points of the last chunks could not be read anymore. The compressor now
gets the entries of the chunks that are kept, and writes the table once.
---
 src/laszip/parallel/appender.rs      | 32 +++---------------------
 src/laszip/parallel/compression.rs   | 21 +++-------------
 src/laszip/sequential/appender.rs    | 37 ++++++----------------------
 src/laszip/sequential/compression.rs | 22 +++--------------
 4 files changed, 19 insertions(+), 93 deletions(-)

diff --git a/src/laszip/parallel/appender.rs b/src/laszip/parallel/appender.rs
index b0a8fb0..aefb8c4 100644
--- a/src/laszip/parallel/appender.rs
+++ b/src/laszip/parallel/appender.rs
@@ -1,12 +1,10 @@
 use crate::laszip::sequential::appender::prepare_compressor_for_appending;
-use crate::laszip::ChunkTable;
 use crate::{LazVlr, ParLasZipCompressor};
 use rayon::iter::IntoParallelIterator;
-use std::io::{Read, Seek, SeekFrom, Write};
+use std::io::{Read, Seek, Write};
 
 /// Struct that handles appending compressed points to a LAZ file in parallel
 pub struct ParLasZipAppender<W> {
-    saved_chunk_table: ChunkTable,
     compressor: ParLasZipCompressor<W>,
 }
 
@@ -16,7 +14,7 @@ where
 {
     /// data must be positioned at the start of point data
     pub fn new(data: W, vlr: LazVlr, point_count: u64) -> crate::Result<Self> {
-        let (compressor, chunk_table) = prepare_compressor_for_appending(
+        let compressor = prepare_compressor_for_appending(
             data,
             vlr,
             point_count,
@@ -24,10 +22,7 @@ where
             ParLasZipCompressor::resume,
         )?;
 
-        Ok(Self {
-            saved_chunk_table: chunk_table,
-            compressor,
-        })
+        Ok(Self { compressor })
     }
 
     /// Tells the compressor that no more points will be compressed
@@ -36,26 +31,7 @@ where
     /// - Writes the chunk table
     /// - update the offset to the chunk_table
     pub fn done(&mut self) -> crate::Result<()> {
-        self.compressor.done()?;
-
-        // The compressor wrote a chunk table that only corresponds to added chunks
-        // We have to write the chunk table that also have the original chunks
-
-        // 1. Get position of chunk table
-        let pos = self.compressor.chunk_table_position_offset() as u64;
-        self.compressor.get_mut().seek(SeekFrom::Start(pos))?;
-        let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
-            .expect("Somehow, the chunk table was not written");
-
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
-
-        // 2 .Overwrite with the correct chunk table
-        let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
-        let dest = self.compressor.get_mut();
-        dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
-
-        Ok(())
+        self.compressor.done()
     }
 
     pub fn get_mut(&mut self) -> &mut W {
diff --git a/src/laszip/parallel/compression.rs b/src/laszip/parallel/compression.rs
index 5d8d6ef..1e6d04d 100644
--- a/src/laszip/parallel/compression.rs
+++ b/src/laszip/parallel/compression.rs
@@ -229,16 +229,14 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         &self.dest
     }
 
-    /// Continues after chunks that are already in the destination
+    /// Continues after `chunks` that are already in the destination
     ///
     /// `last_points` are the points of the last chunk, which gets written again.
     ///
     /// The offset to the chunk table must have been reserved.
-    pub(crate) fn resume(
-        &mut self,
-        num_bytes_in_chunks: u64,
-        last_points: &[u8],
-    ) -> crate::Result<()> {
+    pub(crate) fn resume(&mut self, chunks: ChunkTable, last_points: &[u8]) -> crate::Result<()> {
+        let num_bytes_in_chunks = chunks.chunk_position(chunks.len()).unwrap();
+        self.chunk_table = chunks;
         let first_chunk_pos = self.table_offset as u64 + ChunkTable::OFFSET_SIZE as u64;
         self.dest
             .seek(SeekFrom::Start(first_chunk_pos + num_bytes_in_chunks))?;
@@ -252,17 +250,6 @@ impl<W: Write + Seek + Send + Sync> ParLasZipCompressor<W> {
         }
         Ok(())
     }
-
-    /// Returns the position in the file where the offset to chunk
-    /// table is.
-    pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-        self.table_offset
-    }
-
-    /// Returns the current chunk table
-    pub(crate) fn chunk_table(&self) -> &ChunkTable {
-        &self.chunk_table
-    }
 }
 
 impl<W: Write + Seek + Send + Sync> crate::LazCompressor for ParLasZipCompressor<W> {
diff --git a/src/laszip/sequential/appender.rs b/src/laszip/sequential/appender.rs
index 5efc9f7..531cca5 100644
--- a/src/laszip/sequential/appender.rs
+++ b/src/laszip/sequential/appender.rs
@@ -17,7 +17,7 @@ use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 ///   the function will stop at when we know for sure no other points
 ///   could be present
 ///
-/// The `resume` function receives the compressor, the number of bytes of the chunks that are kept,
+/// The `resume` function receives the compressor, the entries of the chunks that are kept,
 /// and the points of the last chunk, it must skip the former and compress the latter.
 pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
     mut data: W,
@@ -25,11 +25,11 @@ pub(crate) fn prepare_compressor_for_appending<W, F, F2, Compressor>(
     point_count: u64,
     compressor_creator: F,
     resume: F2,
-) -> crate::Result<(Compressor, ChunkTable)>
+) -> crate::Result<Compressor>
 where
     W: Write + Read + Seek + Sync,
     F: FnOnce(W, LazVlr) -> crate::Result<Compressor>,
-    F2: FnOnce(&mut Compressor, u64, &[u8]) -> crate::Result<()>,
+    F2: FnOnce(&mut Compressor, ChunkTable, &[u8]) -> crate::Result<()>,
     Compressor: LazCompressor,
 {
     // Technically we could support PointWise compressor
@@ -96,15 +96,13 @@ where
     // Explicitly reserve the offset so that the compressor knows where the
     // offset is.
     compressor.reserve_offset_to_chunk_table()?;
-    let last_chunk_pos = chunk_table.chunk_position(chunk_table.len()).unwrap();
-    resume(&mut compressor, last_chunk_pos, &data_to_recompress)?;
+    resume(&mut compressor, chunk_table, &data_to_recompress)?;
 
-    Ok((compressor, chunk_table))
+    Ok(compressor)
 }
 
 /// Struct that handles appending compressed points to a LAZ file.
 pub struct LasZipAppender<'a, W: Write + Send + 'a> {
-    saved_chunk_table: ChunkTable,
     compressor: LasZipCompressor<'a, W>,
 }
 
@@ -114,7 +112,7 @@ where
 {
     /// data must be positioned at the start of point data
     pub fn new(data: W, vlr: LazVlr, point_count: u64) -> crate::Result<Self> {
-        let (compressor, chunk_table) = prepare_compressor_for_appending(
+        let compressor = prepare_compressor_for_appending(
             data,
             vlr,
             point_count,
@@ -122,10 +120,7 @@ where
             LasZipCompressor::resume,
         )?;
 
-        Ok(Self {
-            saved_chunk_table: chunk_table,
-            compressor,
-        })
+        Ok(Self { compressor })
     }
 
     /// Tells the compressor that no more points will be compressed
@@ -135,24 +130,6 @@ where
     /// - update the offset to the chunk_table
     pub fn done(&mut self) -> crate::Result<()> {
         self.compressor.done()?;
-
-        // The compressor wrote a chunk table that only corresponds to added chunks
-        // We have to write the chunk table that also have the original chunks
-
-        // 1. Get position of chunk table
-        let pos = self.compressor.chunk_table_position_offset() as u64;
-        self.compressor.get_mut().seek(SeekFrom::Start(pos))?;
-        let (_, chunk_table_pos) = ChunkTable::read_offset(self.compressor.get_mut())?
-            .expect("Somehow, the chunk table was not written");
-
-        self.saved_chunk_table.extend(self.compressor.chunk_table());
-
-        // 2 .Overwrite with the correct chunk table
-        let write_point_count = self.compressor.vlr().uses_variable_size_chunks();
-        let dest = self.compressor.get_mut();
-        dest.seek(SeekFrom::Start(chunk_table_pos))?;
-        self.saved_chunk_table.write(dest, write_point_count)?;
-
         Ok(())
     }
 
diff --git a/src/laszip/sequential/compression.rs b/src/laszip/sequential/compression.rs
index c23f530..d9fc7fc 100644
--- a/src/laszip/sequential/compression.rs
+++ b/src/laszip/sequential/compression.rs
@@ -205,17 +205,14 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         self.record_compressor.get()
     }
 
-    /// Continues after chunks that are already in the destination
+    /// Continues after `chunks` that are already in the destination
     ///
     /// `last_points` are the points of the last chunk, which gets written again.
     ///
     /// The offset to the chunk table must have been reserved.
-    pub(crate) fn resume(
-        &mut self,
-        num_bytes_in_chunks: u64,
-        last_points: &[u8],
-    ) -> crate::Result<()> {
-        self.chunk_start_pos += num_bytes_in_chunks;
+    pub(crate) fn resume(&mut self, chunks: ChunkTable, last_points: &[u8]) -> crate::Result<()> {
+        self.chunk_start_pos += chunks.chunk_position(chunks.len()).unwrap();
+        self.chunk_table = chunks;
         let chunk_start_pos = SeekFrom::Start(self.chunk_start_pos);
         self.get_mut().seek(chunk_start_pos)?;
         self.compress_many(last_points)?;
@@ -226,17 +223,6 @@ impl<'a, W: Write + Seek + Send + Sync + 'a> LasZipCompressor<'a, W> {
         Ok(())
     }
 
-    /// Returns the position in the file where the offset to chunk
-    /// table is.
-    pub(crate) fn chunk_table_position_offset(&self) -> i64 {
-        self.start_pos as i64
-    }
-
-    /// Returns the current chunk table
-    pub(crate) fn chunk_table(&self) -> &ChunkTable {
-        &self.chunk_table
-    }
-
     #[inline]
     fn update_chunk_table(&mut self) -> std::io::Result<()> {
         let current_pos = self
-- 
2.43.0


From e6c109d738658ee55336af5f6284c4ea11491f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 38/38] fix: reading on after an error returned wrong points

After a failed read or seek the source can be anywhere, and the
decompressors may be in the middle of a point or chunk: the next reads
then succeeded with bytes which were never in the stream. They now fail
until the next successful seek. Asking the parallel decompressor for more
points than there are no longer consumes the points that were left.
---
 src/las/file.rs                        | 11 ++++++--
 src/laszip/parallel/decompression.rs   | 38 ++++++++++++++------------
 src/laszip/sequential/decompression.rs | 33 +++++++++++++++++++---
 3 files changed, 59 insertions(+), 23 deletions(-)

diff --git a/src/las/file.rs b/src/las/file.rs
index 1853e77..e436f86 100644
--- a/src/las/file.rs
+++ b/src/las/file.rs
@@ -169,11 +169,18 @@ pub trait LasPointReader {
 
 struct RawPointReader<R: Read> {
     src: R,
+    // Set when reading failed, `src` may then be in the middle of a point
+    failure: Option<std::io::ErrorKind>,
 }
 
 impl<R: Read> LasPointReader for RawPointReader<R> {
     fn read_next_into(&mut self, buffer: &mut [u8]) -> std::io::Result<()> {
-        self.src.read_exact(buffer)
+        if let Some(kind) = self.failure {
+            return Err(std::io::Error::new(kind, "a previous read failed"));
+        }
+        let result = self.src.read_exact(buffer);
+        self.failure = result.as_ref().err().map(std::io::Error::kind);
+        result
     }
 }
 
@@ -216,7 +223,7 @@ impl<'a> SimpleReader<'a> {
                     })?,
                 )
             } else {
-                Box::new(RawPointReader { src })
+                Box::new(RawPointReader { src, failure: None })
             };
         header.point_format_id = point_format_id_compressed_to_uncompressd(header.point_format_id);
         let internal_buffer = vec![0u8; header.point_size as usize];
diff --git a/src/laszip/parallel/decompression.rs b/src/laszip/parallel/decompression.rs
index 91cd3e9..696ea9e 100644
--- a/src/laszip/parallel/decompression.rs
+++ b/src/laszip/parallel/decompression.rs
@@ -95,25 +95,12 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             out.split_at_mut(num_bytes_in_rest)
         };
 
-        // 1. Copy the data from our rest into the caller's buffer
-        if !out_rest.is_empty() {
-            self.rest.read(out_rest)?;
-        }
-
         if out_decompress.is_empty() {
+            self.rest.read(out_rest)?;
             return Ok(());
         }
 
-        debug_assert_eq!(
-            self.rest.position() as usize,
-            self.rest.get_mut().len(),
-            "Rest buffer not completely consumed"
-        );
-        self.rest.get_mut().clear();
-        self.rest.set_position(0);
-
-        // 2. Find out how many chunks we have to decompress
-        // and load their compressed bytes in our internal buffer
+        // 1. Find out how many chunks we have to decompress
         let num_requested_points_left = out_decompress.len() / point_size;
         let start_index = (self.last_chunk_read + 1) as usize;
         let mut num_points = 0usize;
@@ -145,7 +132,24 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
 
         debug_assert!(num_chunks_to_decompress >= 1);
 
-        // Read the necessary compressed bytes into our internal buffer
+        // 2. Copy the data from our rest into the caller's buffer
+        if !out_rest.is_empty() {
+            self.rest.read(out_rest)?;
+        }
+
+        debug_assert_eq!(
+            self.rest.position() as usize,
+            self.rest.get_mut().len(),
+            "Rest buffer not completely consumed"
+        );
+        self.rest.get_mut().clear();
+        self.rest.set_position(0);
+
+        // If what follows fails the source may be anywhere,
+        // nothing more can be read until the next seek
+        self.last_chunk_read = self.chunk_table.len() as isize - 1;
+
+        // Load the compressed bytes of the chunks in our internal buffer
         self.internal_buffer.clear();
         read_exact_into_vec(
             &mut self.source,
@@ -212,7 +216,7 @@ impl<R: Read + Seek> ParLasZipDecompressor<R> {
             return Err(err);
         }
 
-        self.last_chunk_read += num_chunks_to_decompress as isize;
+        self.last_chunk_read = end_index as isize - 1;
         Ok(())
     }
 
diff --git a/src/laszip/sequential/decompression.rs b/src/laszip/sequential/decompression.rs
index 1611cdc..d5ee07d 100644
--- a/src/laszip/sequential/decompression.rs
+++ b/src/laszip/sequential/decompression.rs
@@ -77,6 +77,9 @@ pub struct LasZipDecompressor<'a, R: Read + Seek + 'a> {
     current_chunk: usize,
     chunk_points_read: u64,
     num_points_in_chunk: u64,
+    // Set when reading failed: the source may be anywhere,
+    // nothing more can be read until the next (successful) seek
+    failure: Option<std::io::ErrorKind>,
 }
 
 impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
@@ -130,6 +133,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             current_chunk: 0,
             chunk_points_read: 0,
             num_points_in_chunk: 1,
+            failure: None,
         })
     }
 
@@ -138,7 +142,17 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
     /// - The buffer should have at least enough byte to store the decompressed data
     /// - The data is written in the buffer exactly as it would have been in a LAS File
     ///   in Little Endian order,
-    pub fn decompress_one(&mut self, mut out: &mut [u8]) -> std::io::Result<()> {
+    ///
+    /// When this fails, nothing more can be decompressed until a point is [sought](Self::seek)
+    pub fn decompress_one(&mut self, out: &mut [u8]) -> std::io::Result<()> {
+        if let Some(kind) = self.failure {
+            return Err(std::io::Error::new(kind, "a previous read failed"));
+        }
+        let result = self.decompress_next_point(out);
+        self.remember_failure(result)
+    }
+
+    fn decompress_next_point(&mut self, mut out: &mut [u8]) -> std::io::Result<()> {
         if self.chunk_points_read == self.num_points_in_chunk {
             self.reset_for_new_chunk();
             self.current_chunk += 1;
@@ -215,7 +229,7 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             let could_read_chunk_table =
                 is_last_chunk && self.vlr.compressor != CompressorType::LayeredChunked;
 
-            self.get_mut().seek(SeekFrom::Start(start_of_chunk))?;
+            self.seek_source(SeekFrom::Start(start_of_chunk))?;
             self.current_chunk = chunk_of_point;
             self.reset_for_new_chunk();
 
@@ -237,7 +251,8 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
                 if could_read_chunk_table {
                     // The decoder reads in advance, so the last byte of the chunk
                     // may be consumed before its last point is decompressed
-                    let current_pos = self.get_mut().stream_position()?;
+                    let current_pos = self.get_mut().stream_position();
+                    let current_pos = self.remember_failure(current_pos)?;
                     if current_pos > offset_to_chunk_table {
                         return self.seek_past_last_point();
                     }
@@ -276,10 +291,20 @@ impl<'a, R: Read + Seek + Send + Sync + 'a> LasZipDecompressor<'a, R> {
             self.current_chunk = seek_info.chunk_table.len();
         }
         self.reset_for_new_chunk();
-        self.get_mut().seek(SeekFrom::End(0))?;
+        self.seek_source(SeekFrom::End(0))?;
         Ok(())
     }
 
+    fn seek_source(&mut self, pos: SeekFrom) -> std::io::Result<()> {
+        let result = self.get_mut().seek(pos);
+        self.remember_failure(result).map(|_| ())
+    }
+
+    fn remember_failure<T>(&mut self, result: std::io::Result<T>) -> std::io::Result<T> {
+        self.failure = result.as_ref().err().map(std::io::Error::kind);
+        result
+    }
+
     /// When about to read the first point of a chunk, checks that there is one left
     /// and skips the chunks without points.
     fn move_to_chunk_with_points(&mut self) -> std::io::Result<()> {
-- 
2.43.0

