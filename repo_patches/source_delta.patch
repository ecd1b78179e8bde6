From 1ab6dd4f073b1a57f81a28ac0a2ca2d66e01d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 01/47] fix: jinc kernels drop the centre tap (jinc(0) is 1/2,
 not 0)

---
 src/math/bessel_order_one.rs | 4 ++--
 src/math/lanczos.rs          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/bessel_order_one.rs b/src/math/bessel_order_one.rs
index 5193d70..aaa1626 100644
--- a/src/math/bessel_order_one.rs
+++ b/src/math/bessel_order_one.rs
@@ -320,7 +320,7 @@ fn qone(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f64(x: f64) -> f64 {
     if x == 0f64 {
-        return 0f64;
+        return 0.5f64;
     }
     j1(x) / x
 }
@@ -328,7 +328,7 @@ pub fn jinc_f64(x: f64) -> f64 {
 #[inline]
 pub fn jinc_f32(x: f32) -> f32 {
     if x == 0f32 {
-        return 0f32;
+        return 0.5f32;
     }
     (j1(x as f64) / x as f64) as f32
 }
diff --git a/src/math/lanczos.rs b/src/math/lanczos.rs
index e5d255a..ead1bb6 100644
--- a/src/math/lanczos.rs
+++ b/src/math/lanczos.rs
@@ -45,7 +45,7 @@ where
     f64: AsPrimitive<V>,
 {
     let scale_a: V = 1f32.as_() / a;
-    if x == 0f32.as_() || x > 16.247661874700962f32.as_() {
+    if x > 16.247661874700962f32.as_() {
         return 0f32.as_();
     }
     if x.abs() < a {
-- 
2.43.0


From b763f523e7fa9e076f4f963c2bfe79509fa82ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 02/47] fix: output is black where every tap of the kernel is
 zero

The weights of a filter whose kernel vanishes on all taps of a pixel
(EwaHanning, HaasnSoft) were left at zero. Take the nearest source pixel.
---
 src/scaler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scaler.rs b/src/scaler.rs
index 1b4d94f..bc34289 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -482,6 +482,12 @@ impl Scaler {
                     {
                         *dst = *src * recpeq;
                     }
+                } else if size != 0 {
+                    // The kernel vanishes on every tap, take the source pixel at the center,
+                    // otherwise this output would be always zero
+                    let nearest: usize = center.round().max(0f32.as_()).as_();
+                    let nearest = nearest.clamp(start, end - 1);
+                    weights[filter_position + nearest - start] = 1f32.as_();
                 }
 
                 filter_position += kernel_size;
-- 
2.43.0


From ea2bd6521a2f0a46a8867c926321540f45177902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 03/47] fix: vertical u16 kernels reuse the last full block for
 the tail columns

The column of a processed block was carried to the next, narrower loop
without adding the block width, so the remaining columns of a row were
computed from the wrong source columns.
---
 src/avx2/vertical_u16_lb.rs | 8 ++++----
 src/sse/vertical_u16.rs     | 6 +++---
 src/sse/vertical_u16_lb.rs  | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/avx2/vertical_u16_lb.rs b/src/avx2/vertical_u16_lb.rs
index 6319eb0..a8a94c0 100644
--- a/src/avx2/vertical_u16_lb.rs
+++ b/src/avx2/vertical_u16_lb.rs
@@ -161,7 +161,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             item1,
         );
 
-        cx = v_dx;
+        cx = v_dx + 32;
     }
 
     let v_px = cx;
@@ -202,7 +202,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
 
         _mm256_storeu_si256(dst.as_mut_ptr() as *mut __m256i, item0);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -240,7 +240,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
             _mm256_castsi256_si128(item),
         );
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -371,7 +371,7 @@ unsafe fn convolve_column_lb_avx_u16_impl<const HAS_DOT: bool>(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors_sse);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 542a93a..7da26b1 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -152,7 +152,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -192,7 +192,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let item = _mm_packus_epi32(v_st0, v_st1);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -335,7 +335,7 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
         let u_store0 = _mm_packus_epi32(v_st, v_st);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
diff --git a/src/sse/vertical_u16_lb.rs b/src/sse/vertical_u16_lb.rs
index 1ee9d9b..40fa5c8 100644
--- a/src/sse/vertical_u16_lb.rs
+++ b/src/sse/vertical_u16_lb.rs
@@ -119,7 +119,7 @@ unsafe fn convolve_column_lb_u16_impl(
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item0);
         _mm_storeu_si128(dst.as_mut_ptr().add(8) as *mut __m128i, item1);
 
-        cx = v_dx;
+        cx = v_dx + 16;
     }
 
     let tail16 = dst.chunks_exact_mut(16).into_remainder();
@@ -157,7 +157,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let item = _mm_min_epi16(_mm_packus_epi32(v_st0, v_st1), v_max_colors);
         _mm_storeu_si128(dst.as_mut_ptr() as *mut __m128i, item);
 
-        cx = v_dx;
+        cx = v_dx + 8;
     }
 
     let tail8 = tail16.chunks_exact_mut(8).into_remainder();
@@ -278,7 +278,7 @@ unsafe fn convolve_column_lb_u16_impl(
         let u_store0 = _mm_min_epi16(_mm_packus_epi32(v_st, v_st), v_max_colors);
         _mm_storeu_si64(dst.as_mut_ptr() as *mut u8, u_store0);
 
-        cx = v_dx;
+        cx = v_dx + 4;
     }
 
     let tail4 = tail8.chunks_exact_mut(4).into_remainder();
-- 
2.43.0


From 77985f432ba0e697ca7a4add777569ea201201a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 04/47] fix: RGBA u16 SSE row kernels take pixels of a pair
 from the same half

---
 src/sse/rgba_u16.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/rgba_u16.rs b/src/sse/rgba_u16.rs
index 78d1574..afc9c38 100644
--- a/src/sse/rgba_u16.rs
+++ b/src/sse/rgba_u16.rs
@@ -70,7 +70,7 @@ unsafe fn conv_horiz_rgba_2_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel, _mm_setzero_si128())),
         w1,
     )
 }
@@ -108,7 +108,7 @@ unsafe fn conv_horiz_rgba_4_u16<const FMA: bool>(
     );
     _mm_prefer_fma_ps::<FMA>(
         acc,
-        _mm_cvtepi32_ps(_mm_unpackhi_epi16(rgba_pixel0, _mm_setzero_si128())),
+        _mm_cvtepi32_ps(_mm_unpacklo_epi16(rgba_pixel0, _mm_setzero_si128())),
         w0,
     )
 }
-- 
2.43.0


From 490ebf943ad4a80cadc66cd020f7cc7072b39546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 05/47] fix: plane f32 SSE row kernel counts taps twice

The 16 taps loop advanced by 8 taps only.
---
 src/sse/plane_f32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sse/plane_f32.rs b/src/sse/plane_f32.rs
index 7c83a9a..c80c729 100644
--- a/src/sse/plane_f32.rs
+++ b/src/sse/plane_f32.rs
@@ -186,7 +186,7 @@ unsafe fn convolve_horizontal_plane_sse_row_one_impl<const FMA: bool>(
             let read_weights3 = _mm_loadu_ps(ptr.add(12));
             let weights = (read_weights0, read_weights1, read_weights2, read_weights3);
             store = conv_horiz_plane_16_f32!(bounds_start, src, weights, store, FMA);
-            jx += 8;
+            jx += 16;
         }
 
         while jx + 8 < bounds.size {
-- 
2.43.0


From c1d1edc7c947ee8677f1648dba3caa980ae827d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 06/47] fix: AVX2 RGB u8 last tap reads red and green of the
 first source pixel

---
 src/avx2/rgb_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx2/rgb_u8.rs b/src/avx2/rgb_u8.rs
index bc22d66..e98a658 100644
--- a/src/avx2/rgb_u8.rs
+++ b/src/avx2/rgb_u8.rs
@@ -468,7 +468,7 @@ unsafe fn add_one_weight<const HAS_DOT: bool>(
 ) -> __m128i {
     const COMPONENTS: usize = 3;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
-    let base_pixel = _mm_loadu_si16(src.as_ptr());
+    let base_pixel = _mm_loadu_si16(src_ptr);
     let m_vl = _mm_insert_epi8::<2>(base_pixel, src_ptr.add(2).read_unaligned() as i32);
     let lo = _mm_unpacklo_epi8(m_vl, _mm_setzero_si128());
     _mm_dot16_avx_epi32::<HAS_DOT>(
-- 
2.43.0


From 1d377b9cba31bedf65a36381e39fd989bab9a057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 07/47] fix: SSE u8 vertical 32 columns kernel misses the fixed
 point shift

---
 src/sse/vertical_u8.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/sse/vertical_u8.rs b/src/sse/vertical_u8.rs
index 060901e..670512f 100644
--- a/src/sse/vertical_u8.rs
+++ b/src/sse/vertical_u8.rs
@@ -140,15 +140,27 @@ pub(crate) unsafe fn convolve_vertical_part_sse_32(
             dot_prod(store_4, store_5, store_6, store_7, item_row_1, v_weight);
     }
 
-    let rgb0 = _mm_packs_epi32(store_0, store_1);
-    let rgb2 = _mm_packs_epi32(store_2, store_3);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_0),
+        _mm_srai_epi32::<PRECISION>(store_1),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_2),
+        _mm_srai_epi32::<PRECISION>(store_3),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut(px..);
     _mm_storeu_si128(dst_ptr.as_mut_ptr() as *mut __m128i, rgb);
 
-    let rgb0 = _mm_packs_epi32(store_4, store_5);
-    let rgb2 = _mm_packs_epi32(store_6, store_7);
+    let rgb0 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_4),
+        _mm_srai_epi32::<PRECISION>(store_5),
+    );
+    let rgb2 = _mm_packs_epi32(
+        _mm_srai_epi32::<PRECISION>(store_6),
+        _mm_srai_epi32::<PRECISION>(store_7),
+    );
     let rgb = _mm_packus_epi16(rgb0, rgb2);
 
     let dst_ptr = dst.get_unchecked_mut((px + 16)..);
-- 
2.43.0


From 3c0cf46c0ad427e0b823596c1df369e11afeadd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 08/47] fix: AVX2 low precision RGBA u8 kernel weighs alpha of
 tap 4 with weight 5

---
 src/avx2/rgba_u8_lb.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index d9663d3..fd4267e 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -154,7 +154,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_4_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
@@ -363,7 +363,7 @@ unsafe fn convolve_horizontal_rgba_avx_rows_one_impl(
             let w7 = w_ptr[7];
 
             let weights0 = _mm256_setr_epi16(
-                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w5, w5, w5, w5, w5,
+                w0, w0, w0, w0, w1, w1, w1, w1, w4, w4, w4, w4, w5, w5, w5, w5,
             );
             let weights1 = _mm256_setr_epi16(
                 w2, w2, w2, w2, w3, w3, w3, w3, w6, w6, w6, w6, w7, w7, w7, w7,
-- 
2.43.0


From c447c825d9681466618c08f3191049667fa79732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 09/47] fix: AVX2 RGBA u8 low precision kernel runs on CPUs
 without AVX2 and for any scale

The condition joined the feature check and the scale limit with ||.
---
 src/rgba_u8.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rgba_u8.rs b/src/rgba_u8.rs
index fc6c4a6..0336411 100644
--- a/src/rgba_u8.rs
+++ b/src/rgba_u8.rs
@@ -112,7 +112,8 @@ impl HorizontalConvolutionPass<u8, 4> for ImageStore<'_, u8, 4> {
         }
         #[cfg(all(target_arch = "x86_64", feature = "avx"))]
         {
-            if (std::arch::is_x86_feature_detected!("avx2") || _scale_factor < 8.)
+            if std::arch::is_x86_feature_detected!("avx2")
+                && _scale_factor < 8.
                 && _options.workload_strategy == crate::WorkloadStrategy::PreferSpeed
             {
                 _dispatcher_4_rows = Some(convolve_horizontal_rgba_avx_rows_4_lb);
-- 
2.43.0


From d3ee0e466efb86e5323c0cce93e3a93a28df112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:37 +0000
Subject: [PATCH 10/47] fix: plane u8 horizontal pass selects precision by the
 vertical scale

---
 src/plane_u8.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_u8.rs b/src/plane_u8.rs
index 68da74d..0648e99 100644
--- a/src/plane_u8.rs
+++ b/src/plane_u8.rs
@@ -56,7 +56,7 @@ impl HorizontalConvolutionPass<u8, 1> for ImageStore<'_, u8, 1> {
         _pool: &Option<ThreadPool>,
         _options: ConvolutionOptions,
     ) {
-        let _scale_factor = self.height as f32 / destination.height as f32;
+        let _scale_factor = self.width as f32 / destination.width as f32;
         let mut _dispatcher_4_rows: Option<
             fn(&[u8], usize, &mut [u8], usize, &FilterWeights<i16>),
         > = Some(handle_fixed_rows_4_u8::<1>);
-- 
2.43.0


From 9e9d92320151e95662c31b31f413b576b14df46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 11/47] fix: u16 float passes round results up instead of to
 nearest

A constant image gains one level per pass, because the f32 sum is often
a hair above the integer. SIMD paths already round to nearest.
---
 src/mixed_storage.rs    | 8 ++++----
 src/sse/vertical_u16.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mixed_storage.rs b/src/mixed_storage.rs
index 3c14ccc..4ef4208 100644
--- a/src/mixed_storage.rs
+++ b/src/mixed_storage.rs
@@ -35,7 +35,7 @@ impl MixedStorage<u8> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -43,7 +43,7 @@ impl MixedStorage<u8> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, _: u32) -> u8 {
-        self.ceil().max(0.).min(255.) as u8
+        self.round().max(0.).min(255.) as u8
     }
 }
 
@@ -51,7 +51,7 @@ impl MixedStorage<u16> for f32 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f32) as u16
     }
 }
 
@@ -71,7 +71,7 @@ impl MixedStorage<u16> for f64 {
     #[inline(always)]
     #[allow(clippy::manual_clamp)]
     fn to_mixed(self, bit_depth: u32) -> u16 {
-        self.ceil().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
+        self.round().max(0.).min(((1 << bit_depth) - 1) as f64) as u16
     }
 }
 
diff --git a/src/sse/vertical_u16.rs b/src/sse/vertical_u16.rs
index 7da26b1..be6db82 100644
--- a/src/sse/vertical_u16.rs
+++ b/src/sse/vertical_u16.rs
@@ -408,6 +408,6 @@ unsafe fn convolve_column_lb_u16_impl<const FMA: bool>(
             }
         }
 
-        *dst = store0.ceil().max(0.).min(max_colors as f32) as u16;
+        *dst = store0.round().max(0.).min(max_colors as f32) as u16;
     }
 }
-- 
2.43.0


From 34e36be76a00c1a39ab800da127e45ea72c82d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 12/47] fix: scalar fixed point vertical pass truncates instead
 of rounding

---
 src/fixed_point_vertical.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fixed_point_vertical.rs b/src/fixed_point_vertical.rs
index 49ed888..5e830de 100644
--- a/src/fixed_point_vertical.rs
+++ b/src/fixed_point_vertical.rs
@@ -28,6 +28,7 @@
  */
 use crate::filter_weights::FilterBounds;
 use crate::saturate_narrow::SaturateNarrow;
+use crate::support::ROUNDING_CONST;
 use num_traits::AsPrimitive;
 use std::ops::{AddAssign, Mul};
 
@@ -54,7 +55,7 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -108,8 +109,8 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_double<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
@@ -177,10 +178,10 @@ pub(crate) fn convolve_column_handler_fixed_point_direct_buffer_four<
     if filter.is_empty() {
         return;
     }
-    let mut direct_store0: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store1: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store2: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
-    let mut direct_store3: [J; BUFFER_SIZE] = [J::default(); BUFFER_SIZE];
+    let mut direct_store0: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store1: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store2: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
+    let mut direct_store3: [J; BUFFER_SIZE] = [ROUNDING_CONST.as_(); BUFFER_SIZE];
 
     let v_start_px = x;
 
-- 
2.43.0


From 271991ba67b6aa5e2a5ac3b4781b53adf16c13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 13/47] fix: software f32 to f16 conversion drops the sign

---
 src/sse/f16_utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sse/f16_utils.rs b/src/sse/f16_utils.rs
index f0e78e2..b8dc6fa 100644
--- a/src/sse/f16_utils.rs
+++ b/src/sse/f16_utils.rs
@@ -174,7 +174,8 @@ unsafe fn _mm_cvtps_ph_fallback(x: __m128) -> __m128i {
         ),
         _mm_set1_epi32(0x7FFF),
     );
-    let packed_32 = _mm_or_si128(_mm_or_si128(j1, j2), sat);
+    let sign = _mm_srli_epi32::<16>(_mm_and_si128(b, _mm_set1_epi32(i32::MIN)));
+    let packed_32 = _mm_or_si128(_mm_or_si128(_mm_or_si128(j1, j2), sat), sign);
     _mm_packus_epi32(packed_32, _mm_setzero_si128())
 }
 
-- 
2.43.0


From 21c539d24145df002081f7ccb9a83f676ad16b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 14/47] fix: fixed point weights of a pixel do not sum up to
 one

Weights above one (edges when enlarging with Lanczos, CatmullRom, ...) were
saturated and the rounding error of many small weights added up, so flat
areas changed brightness. Carry the error to the neighbouring weights.
---
 src/filter_weights.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/filter_weights.rs b/src/filter_weights.rs
index be308e8..841bae5 100644
--- a/src/filter_weights.rs
+++ b/src/filter_weights.rs
@@ -100,17 +100,31 @@ impl FilterWeights<f32> {
         let lower_bound = J::min_value().as_();
         let upper_bound = J::max_value().as_();
 
-        for (chunk, kernel_chunk) in self
+        for ((chunk, kernel_chunk), bounds) in self
             .weights
             .chunks_exact(self.kernel_size)
             .zip(output_kernel.chunks_exact_mut(align))
+            .zip(self.bounds.iter())
         {
-            for (&weight, kernel) in chunk.iter().zip(kernel_chunk) {
-                *kernel = (weight * precision_scale)
-                    .round()
-                    .min(upper_bound)
-                    .max(lower_bound)
-                    .as_();
+            let size = bounds.size.min(self.kernel_size);
+            // What rounding or saturation takes from a weight goes to the next one,
+            // so the weights of a pixel keep their sum
+            let mut error = 0f32;
+            for (&weight, kernel) in chunk.iter().zip(kernel_chunk.iter_mut()).take(size) {
+                let value = weight * precision_scale + error;
+                let quantized = value.round().min(upper_bound).max(lower_bound);
+                error = value - quantized;
+                *kernel = quantized.as_();
+            }
+            // The rest that the last weights cannot hold goes back to the previous ones
+            for kernel in kernel_chunk[..size].iter_mut().rev() {
+                if error.round() == 0. {
+                    break;
+                }
+                let value: f32 = (*kernel).as_() + error;
+                let quantized = value.round().min(upper_bound).max(lower_bound);
+                error = value - quantized;
+                *kernel = quantized.as_();
             }
         }
 
-- 
2.43.0


From 1662338cf5289980b73b796a33cfb65869944851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 15/47] fix: Sphinx kernel loses all precision near zero in f32

---
 src/math/sphinx.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/math/sphinx.rs b/src/math/sphinx.rs
index 3fffc40..5a08783 100644
--- a/src/math/sphinx.rs
+++ b/src/math/sphinx.rs
@@ -34,10 +34,14 @@ use num_traits::{AsPrimitive, Float, Signed};
 pub(crate) fn sphinx<V: Copy + ConstPI + Signed + Float + 'static>(x: V) -> V
 where
     f32: AsPrimitive<V>,
+    f64: AsPrimitive<V>,
 {
-    if x.abs() < 1e-8.as_() {
-        return 1f32.as_();
-    }
     let x = x * V::const_pi();
+    if x.abs() < 0.3f32.as_() {
+        // The closed form cancels catastrophically near zero, use its series there
+        let x2 = x * x;
+        return 1f32.as_()
+            - x2 * (0.1f64.as_() - x2 * ((1. / 280f64).as_() - x2 * (1. / 15120f64).as_()));
+    }
     3.0f32.as_() * (x.sin() - x * x.cos()) / (x * x * x)
 }
-- 
2.43.0


From 56c41623c6d750c599c33aceabce34fd4348010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 16/47] fix: Bartlett and BartlettHann windows are not centred

---
 src/math/bartlett.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/math/bartlett.rs b/src/math/bartlett.rs
index 1eb3071..f543e2f 100644
--- a/src/math/bartlett.rs
+++ b/src/math/bartlett.rs
@@ -32,16 +32,15 @@ use num_traits::{AsPrimitive, Float};
 use std::ops::{Mul, Sub};
 
 #[inline(always)]
-pub(crate) fn bartlett<V: Copy + Sub<Output = V> + Mul<Output = V> + 'static + PartialOrd>(
-    x: V,
-) -> V
+pub(crate) fn bartlett<V: Copy + Sub<Output = V> + Float + 'static>(x: V) -> V
 where
     f32: AsPrimitive<V>,
 {
-    if x >= 0f32.as_() && x <= 1f32.as_() {
-        return 2f32.as_() * x;
+    let x = x.abs();
+    if x >= 1f32.as_() {
+        return 0f32.as_();
     }
-    2f32.as_() - 2f32.as_() * x
+    1f32.as_() - x
 }
 
 #[inline(always)]
@@ -54,10 +53,9 @@ where
     f32: AsPrimitive<V>,
 {
     let x = x.abs();
-    if x > 2f32.as_() {
+    if x > 1f32.as_() {
         return 0f32.as_();
     }
-    let l = 2.0f32.as_();
-    let fac = (x / (l - 1.0f32.as_()) - 0.5f32.as_()).abs();
-    0.62f32.as_() - 0.4832.as_() * fac + 0.38f32.as_() * (2f32.as_() * V::const_pi() * fac).cos()
+    let fac = x * 0.5f32.as_();
+    0.62f32.as_() - 0.48f32.as_() * fac + 0.38f32.as_() * (2f32.as_() * V::const_pi() * fac).cos()
 }
-- 
2.43.0


From 8d770ff489801e659d662a367b87db6c3eacab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 17/47] fix: image stores with zero stride are rejected as
 invalid

---
 src/image_store.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index b1b1bb0..69407fd 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -229,8 +229,8 @@ where
                 slice_len: self.buffer.borrow().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width * N {
+            return Err(PicScaleError::InvalidStride(self.width * N, self.stride()));
         }
         Ok(())
     }
@@ -251,8 +251,8 @@ where
                 slice_len: self.buffer.as_ref().len(),
             }));
         }
-        if self.stride < self.width * N {
-            return Err(PicScaleError::InvalidStride(self.width * N, self.stride));
+        if self.stride() < self.width * N {
+            return Err(PicScaleError::InvalidStride(self.width * N, self.stride()));
         }
         Ok(())
     }
-- 
2.43.0


From 7866b5319c21d15b033b9d266d3a84fe0167c080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 18/47] fix: nearest sampler ignores strides of both images

---
 src/nearest_sampler.rs | 9 +++++----
 src/resize_ar30.rs     | 2 ++
 src/scaler.rs          | 6 ++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 945d5bb..25251b5 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -33,9 +33,11 @@ use rayon::ThreadPool;
 
 pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     src: &[T],
+    src_stride: usize,
     src_width: usize,
     src_height: usize,
     dst: &mut [T],
+    dst_stride: usize,
     dst_width: usize,
     dst_height: usize,
     pool: &Option<ThreadPool>,
@@ -46,15 +48,14 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
     let clip_width = src_width as f32 - 1f32;
     let clip_height = src_height as f32 - 1f32;
 
-    let dst_stride = dst_width * CHANNELS;
-    let src_stride = src_width * CHANNELS;
+    let dst_row = dst_width * CHANNELS;
 
     if let Some(pool) = pool {
         pool.install(|| {
             dst.par_chunks_exact_mut(dst_stride)
                 .enumerate()
                 .for_each(|(y, dst_chunk)| {
-                    for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                    for (x, dst) in dst_chunk[..dst_row].chunks_exact_mut(CHANNELS).enumerate() {
                         let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                             .min(clip_width)
                             .max(0f32) as usize;
@@ -77,7 +78,7 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
         dst.chunks_exact_mut(dst_stride)
             .enumerate()
             .for_each(|(y, dst_chunk)| {
-                for (x, dst) in dst_chunk.chunks_exact_mut(CHANNELS).enumerate() {
+                for (x, dst) in dst_chunk[..dst_row].chunks_exact_mut(CHANNELS).enumerate() {
                     let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
                         .min(clip_width)
                         .max(0f32) as usize;
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 281abf2..7a296ca 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -97,9 +97,11 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         resize_nearest::<u8, 4>(
             src,
             src_stride,
+            src_size.width,
             src_size.height,
             dst,
             dst_stride,
+            dst_size.width,
             dst_size.height,
             &pool,
         );
diff --git a/src/scaler.rs b/src/scaler.rs
index bc34289..82709fe 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -616,11 +616,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
@@ -907,11 +910,14 @@ impl Scaler {
             .get_pool(ImageSize::new(new_size.width, new_size.height));
 
         if self.function == ResamplingFunction::Nearest {
+            let into_stride = into.stride();
             resize_nearest::<T, N>(
                 store.buffer.as_ref(),
+                store.stride(),
                 store.width,
                 store.height,
                 into.buffer.borrow_mut(),
+                into_stride,
                 new_size.width,
                 new_size.height,
                 &pool,
-- 
2.43.0


From 1d0688e70d995818f95bbee7b746af45b8234202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 19/47] fix: nearest sampler takes a pixel up to a whole pixel
 away from the sample

The sample position was truncated, so upscaling by 2 repeated the pixels 3:1
---
 src/nearest_sampler.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nearest_sampler.rs b/src/nearest_sampler.rs
index 25251b5..cb1c72c 100644
--- a/src/nearest_sampler.rs
+++ b/src/nearest_sampler.rs
@@ -56,10 +56,12 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
                 .enumerate()
                 .for_each(|(y, dst_chunk)| {
                     for (x, dst) in dst_chunk[..dst_row].chunks_exact_mut(CHANNELS).enumerate() {
-                        let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                        let src_x = ((x as f32 + 0.5f32) * x_scale - 1f32)
+                            .ceil()
                             .min(clip_width)
                             .max(0f32) as usize;
-                        let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                        let src_y = ((y as f32 + 0.5f32) * y_scale - 1f32)
+                            .ceil()
                             .min(clip_height)
                             .max(0f32) as usize;
                         let src_offset_y = src_y * src_stride;
@@ -79,10 +81,12 @@ pub(crate) fn resize_nearest<T: Copy + Send + Sync, const CHANNELS: usize>(
             .enumerate()
             .for_each(|(y, dst_chunk)| {
                 for (x, dst) in dst_chunk[..dst_row].chunks_exact_mut(CHANNELS).enumerate() {
-                    let src_x = ((x as f32 + 0.5f32) * x_scale - 0.5f32)
+                    let src_x = ((x as f32 + 0.5f32) * x_scale - 1f32)
+                        .ceil()
                         .min(clip_width)
                         .max(0f32) as usize;
-                    let src_y = ((y as f32 + 0.5f32) * y_scale - 0.5f32)
+                    let src_y = ((y as f32 + 0.5f32) * y_scale - 1f32)
+                        .ceil()
                         .min(clip_height)
                         .max(0f32) as usize;
                     let src_offset_y = src_y * src_stride;
-- 
2.43.0


From f1ecf8e9f7b8602e154fd3fd62a0b2ae6a3273a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 20/47] fix: AR30 resize ignores the destination stride when
 only the height or nothing changes

---
 src/resize_ar30.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index 7a296ca..ffd013a 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -83,8 +83,12 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
     }
 
     if src_size.width == dst_size.width && src_size.height == dst_size.height {
-        for (src, dst) in src.iter().zip(dst.iter_mut()) {
-            *dst = *src;
+        let row = src_size.width * 4;
+        for (src, dst) in src
+            .chunks_exact(src_stride)
+            .zip(dst.chunks_exact_mut(dst_stride))
+        {
+            dst[..row].copy_from_slice(&src[..row]);
         }
         return Ok(());
     }
@@ -121,7 +125,7 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
             src_stride,
             vertical_filters,
             dst,
-            src_stride,
+            dst_stride,
             &pool,
             src_size.width,
             options,
-- 
2.43.0


From 19076c953fc2441ab1164d7bbd2fff5b36acb896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 21/47] fix: AR30 single row pass drops three quarters of the
 taps

---
 src/fixed_point_horizontal_ar30.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixed_point_horizontal_ar30.rs b/src/fixed_point_horizontal_ar30.rs
index 8b4b6be..7195955 100644
--- a/src/fixed_point_horizontal_ar30.rs
+++ b/src/fixed_point_horizontal_ar30.rs
@@ -102,7 +102,7 @@ pub(crate) fn convolve_row_handler_fixed_point_ar30<
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 4) * weight4
                 + load_ar30_with_offset!(src_ptr0, AR30_TYPE, AR30_ORDER, 5) * weight5;
         } else {
-            let src_ptr0 = &src[px..(px + bounds_size)];
+            let src_ptr0 = &src[px..(px + bounds_size * CN)];
             for (&k_weight, src) in weights
                 .iter()
                 .zip(src_ptr0.chunks_exact(4))
-- 
2.43.0


From 234e53748c199ea27994809a86611641729b1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 22/47] fix: constant alpha is not premultiplied but still
 unpremultiplied

---
 src/scaler.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index 82709fe..bf84d0b 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -694,7 +694,7 @@ impl Scaler {
         let mut src_store: std::borrow::Cow<'_, ImageStore<'_, T, N>> =
             std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -771,7 +771,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
@@ -828,7 +828,7 @@ impl Scaler {
         let new_size = into.get_size();
         let mut src_store = std::borrow::Cow::Borrowed(store);
 
-        let mut has_alpha_premultiplied = true;
+        let mut has_alpha_premultiplied = false;
 
         if premultiply_alpha_requested {
             let is_alpha_premultiplication_reasonable =
-- 
2.43.0


From a711a38dd7c8f1f3c0f22c15dcbd73e7b42e00ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 23/47] fix: scalar u8 alpha passes square the alpha and index
 the table with a wrong row

---
 src/alpha_handle_u8.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/alpha_handle_u8.rs b/src/alpha_handle_u8.rs
index ada0cc9..053b07d 100644
--- a/src/alpha_handle_u8.rs
+++ b/src/alpha_handle_u8.rs
@@ -52,7 +52,7 @@ pub(crate) fn premultiply_alpha_rgba_row_impl(dst: &mut [u8], src: &[u8]) {
         dst[0] = div_by_255(src[0] as u16 * a);
         dst[1] = div_by_255(src[1] as u16 * a);
         dst[2] = div_by_255(src[2] as u16 * a);
-        dst[3] = div_by_255(a * a);
+        dst[3] = src[3];
     }
 }
 
@@ -89,10 +89,10 @@ const fn make_unpremultiplication_table() -> [u8; 65536] {
         let mut pixel = 0usize;
         while pixel < 256 {
             if alpha == 0 {
-                buf[alpha * 255 + pixel] = 0;
+                buf[alpha * 256 + pixel] = 0;
             } else {
                 let value = (pixel * 255 + alpha / 2) / alpha;
-                buf[alpha * 255 + pixel] = value as u8;
+                buf[alpha * 256 + pixel] = if value > 255 { 255 } else { value as u8 };
             }
             pixel += 1;
         }
@@ -107,7 +107,7 @@ static UNPREMULTIPLICATION_TABLE: [u8; 65536] = make_unpremultiplication_table()
 pub(crate) fn unpremultiply_alpha_rgba_row_impl(in_place: &mut [u8]) {
     for dst in in_place.chunks_exact_mut(4) {
         let a = dst[3];
-        let z = a as u16 * 255;
+        let z = a as u16 * 256;
         dst[0] = UNPREMULTIPLICATION_TABLE[(z + dst[0] as u16) as usize];
         dst[1] = UNPREMULTIPLICATION_TABLE[(z + dst[1] as u16) as usize];
         dst[2] = UNPREMULTIPLICATION_TABLE[(z + dst[2] as u16) as usize];
-- 
2.43.0


From 29ab1ad01bdd696050cfa33554845a54071b6cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 24/47] fix: scalar u16 alpha passes lose the alpha, truncate
 and exceed the bit depth

---
 src/alpha_handle_u16.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/alpha_handle_u16.rs b/src/alpha_handle_u16.rs
index 92a4880..4c65ae2 100644
--- a/src/alpha_handle_u16.rs
+++ b/src/alpha_handle_u16.rs
@@ -71,15 +71,15 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_1023(src[0] as u32 * a);
             dst[1] = div_by_1023(src[1] as u32 * a);
             dst[2] = div_by_1023(src[2] as u32 * a);
-            dst[3] = div_by_1023(src[3] as u32 * a);
+            dst[3] = src[3];
         }
-    } else if max_colors == 4096 {
+    } else if max_colors == 4095 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
             dst[0] = div_by_4095(src[0] as u32 * a);
             dst[1] = div_by_4095(src[1] as u32 * a);
             dst[2] = div_by_4095(src[2] as u32 * a);
-            dst[3] = div_by_4095(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else if max_colors == 65535 {
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
@@ -87,19 +87,19 @@ pub(crate) fn premultiply_alpha_rgba_row(dst: &mut [u16], src: &[u16], max_color
             dst[0] = div_by_65535(src[0] as u32 * a);
             dst[1] = div_by_65535(src[1] as u32 * a);
             dst[2] = div_by_65535(src[2] as u32 * a);
-            dst[3] = div_by_65535(src[3] as u32 * a);
+            dst[3] = src[3];
         }
     } else {
         let recip_max_colors = 1. / max_colors as f32;
         for (dst, src) in dst.chunks_exact_mut(4).zip(src.chunks_exact(4)) {
             let a = src[3] as u32;
-            dst[0] =
-                (((src[0] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[1] =
-                (((src[1] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[2] =
-                (((src[2] as u32 * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
-            dst[3] = (((a * a) as f32 * recip_max_colors) as u32).min(max_colors) as u16;
+            dst[0] = (((src[0] as u32 * a) as f32 * recip_max_colors).round() as u32)
+                .min(max_colors) as u16;
+            dst[1] = (((src[1] as u32 * a) as f32 * recip_max_colors).round() as u32)
+                .min(max_colors) as u16;
+            dst[2] = (((src[2] as u32 * a) as f32 * recip_max_colors).round() as u32)
+                .min(max_colors) as u16;
+            dst[3] = src[3];
         }
     }
 }
@@ -109,10 +109,12 @@ pub(crate) fn unpremultiply_alpha_rgba_row(in_place: &mut [u16], max_colors: u32
         let a = dst[3] as u32;
         if a != 0 {
             let a_recip = 1. / a as f32;
-            dst[0] = ((dst[0] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[1] = ((dst[1] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[2] = ((dst[2] as u32 * max_colors) as f32 * a_recip) as u16;
-            dst[3] = ((a * max_colors) as f32 * a_recip) as u16;
+            dst[0] = (((dst[0] as u32 * max_colors) as f32 * a_recip).round() as u32)
+                .min(max_colors) as u16;
+            dst[1] = (((dst[1] as u32 * max_colors) as f32 * a_recip).round() as u32)
+                .min(max_colors) as u16;
+            dst[2] = (((dst[2] as u32 * max_colors) as f32 * a_recip).round() as u32)
+                .min(max_colors) as u16;
         }
     }
 }
-- 
2.43.0


From 2c4ab7c82309b9c321ef49b18cd7264212bd943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 25/47] fix: 16 bit premultiply treats values above 32767 as
 negative

---
 src/avx2/alpha_u16.rs | 12 ++++++------
 src/sse/alpha_u16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 1a0a0b3..3157811 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -154,12 +154,12 @@ impl<const BIT_DEPTH: usize> Avx2PremultiplyExecutorDefault<BIT_DEPTH> {
         let bl32 = _mm256_unpacklo_epi16(pixel.2, zeros);
         let bh32 = _mm256_unpackhi_epi16(pixel.2, zeros);
 
-        let rl32 = _mm256_madd_epi16(rl32, low_alpha);
-        let rh32 = _mm256_madd_epi16(rh32, high_alpha);
-        let gl32 = _mm256_madd_epi16(gl32, low_alpha);
-        let gh32 = _mm256_madd_epi16(gh32, high_alpha);
-        let bl32 = _mm256_madd_epi16(bl32, low_alpha);
-        let bh32 = _mm256_madd_epi16(bh32, high_alpha);
+        let rl32 = _mm256_mullo_epi32(rl32, low_alpha);
+        let rh32 = _mm256_mullo_epi32(rh32, high_alpha);
+        let gl32 = _mm256_mullo_epi32(gl32, low_alpha);
+        let gh32 = _mm256_mullo_epi32(gh32, high_alpha);
+        let bl32 = _mm256_mullo_epi32(bl32, low_alpha);
+        let bh32 = _mm256_mullo_epi32(bh32, high_alpha);
 
         let lr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rl32);
         let hr32 = _mm256_div_by_epi32::<BIT_DEPTH>(rh32);
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index a20897d..8b903e2 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -312,16 +312,16 @@ impl<const BIT_DEPTH: usize> Sse41PremultiplyExecutorDefault<BIT_DEPTH> {
         let a_hi_f = _mm_unpackhi_epi16(aaaa, zeros);
 
         let new_rrrr = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(rrrr, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(rrrr, zeros), a_hi_f)),
         );
         let new_gggg = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(gggg, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(gggg, zeros), a_hi_f)),
         );
         let new_bbbb = _mm_packus_epi32(
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
-            _mm_div_by::<BIT_DEPTH>(_mm_madd_epi16(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpacklo_epi16(bbbb, zeros), a_lo_f)),
+            _mm_div_by::<BIT_DEPTH>(_mm_mullo_epi32(_mm_unpackhi_epi16(bbbb, zeros), a_hi_f)),
         );
 
         let (rgba0, rgba1, rgba2, rgba3) =
-- 
2.43.0


From d1f6df723354479a5c2a0ebbd70d0fa716cafb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 26/47] fix: u16 unpremultiply exceeds the bit depth, clamps 16
 bit to 32767 and is biased up

---
 src/avx2/alpha_u16.rs | 75 ++++++++++++++++++++-----------------------
 src/sse/alpha_u16.rs  | 31 ++++++++----------
 2 files changed, 47 insertions(+), 59 deletions(-)

diff --git a/src/avx2/alpha_u16.rs b/src/avx2/alpha_u16.rs
index 3157811..75e6e86 100644
--- a/src/avx2/alpha_u16.rs
+++ b/src/avx2/alpha_u16.rs
@@ -39,10 +39,11 @@ use std::arch::x86::*;
 use std::arch::x86_64::*;
 
 #[inline(always)]
-unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
+unsafe fn _mm256_scale_by_alpha(
     px: __m256i,
     low_low_a: __m256,
     low_high_a: __m256,
+    v_max_colors: __m256,
 ) -> __m256i {
     let zeros = _mm256_setzero_si256();
     let ls = _mm256_unpacklo_epi16(px, zeros);
@@ -51,18 +52,8 @@ unsafe fn _mm256_scale_by_alpha<const FMA: bool>(
     let low_px = _mm256_cvtepi32_ps(ls);
     let high_px = _mm256_cvtepi32_ps(hs);
 
-    let (lvs, hvs);
-
-    if FMA {
-        lvs = _mm256_fmadd_ps(low_px, low_low_a, _mm256_set1_ps(0.5f32));
-        hvs = _mm256_fmadd_ps(high_px, low_high_a, _mm256_set1_ps(0.5f32));
-    } else {
-        let lps = _mm256_mul_ps(low_px, low_low_a);
-        let hps = _mm256_mul_ps(high_px, low_high_a);
-
-        lvs = _mm256_round_ps::<0x00>(lps);
-        hvs = _mm256_round_ps::<0x00>(hps);
-    }
+    let lvs = _mm256_min_ps(_mm256_mul_ps(low_px, low_low_a), v_max_colors);
+    let hvs = _mm256_min_ps(_mm256_mul_ps(high_px, low_high_a), v_max_colors);
 
     let new_ll = _mm256_cvtps_epi32(lvs);
     let new_lh = _mm256_cvtps_epi32(hvs);
@@ -226,6 +217,7 @@ impl Avx2PremultiplyExecutorAnyBit {
         dst: &mut [u16],
         src: &[u16],
         scale: __m256,
+        v_max_colors: __m256,
     ) {
         let src_ptr = src.as_ptr();
         let lane0 = _mm256_loadu_si256(src_ptr as *const __m256i);
@@ -246,9 +238,9 @@ impl Avx2PremultiplyExecutorAnyBit {
         let low_alpha = _mm256_mul_ps(lla, scale);
         let high_alpha = _mm256_mul_ps(hla, scale);
 
-        let new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
-        let new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
-        let new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
+        let new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
+        let new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
 
         let dst_ptr = dst.as_mut_ptr();
 
@@ -274,11 +266,12 @@ impl Avx2PremultiplyExecutorAnyBit {
         let mut src_rem = src;
 
         let v_scale_colors = _mm256_set1_ps((1. / max_colors as f64) as f32);
+        let v_max_colors = _mm256_set1_ps(max_colors as f32);
         for (dst, src) in rem
             .chunks_exact_mut(16 * 4)
             .zip(src_rem.chunks_exact(16 * 4))
         {
-            self.premultiply_chunk::<FMA>(dst, src, v_scale_colors);
+            self.premultiply_chunk::<FMA>(dst, src, v_scale_colors, v_max_colors);
         }
 
         rem = rem.chunks_exact_mut(16 * 4).into_remainder();
@@ -293,7 +286,7 @@ impl Avx2PremultiplyExecutorAnyBit {
             let mut dst_buffer: [u16; 16 * 4] = [0u16; 16 * 4];
             std::ptr::copy_nonoverlapping(src_rem.as_ptr(), buffer.as_mut_ptr(), src_rem.len());
 
-            self.premultiply_chunk::<FMA>(&mut dst_buffer, &buffer, v_scale_colors);
+            self.premultiply_chunk::<FMA>(&mut dst_buffer, &buffer, v_scale_colors, v_max_colors);
 
             std::ptr::copy_nonoverlapping(dst_buffer.as_ptr(), rem.as_mut_ptr(), rem.len());
         }
@@ -424,7 +417,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 ) {
     let max_colors = (1 << bit_depth) - 1;
 
-    let v_scale_colors = _mm256_set1_ps(max_colors as f32);
+    let v_max_colors = _mm256_set1_ps(max_colors as f32);
 
     let mut rem = in_place;
 
@@ -441,21 +434,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let dst_ptr = dst.as_mut_ptr();
@@ -487,21 +480,21 @@ unsafe fn avx_unpremultiply_alpha_rgba_u16_row_impl<const FMA: bool>(
 
         let is_zero_alpha_mask = _mm256_cmpeq_epi16(pixel.3, zeros);
 
-        let mut low_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)));
-
-        low_alpha = _mm256_mul_ps(low_alpha, v_scale_colors);
-
-        let mut high_alpha =
-            _mm256_rcp_ps(_mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)));
+        let low_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpacklo_epi16(pixel.3, zeros)),
+        );
 
-        high_alpha = _mm256_mul_ps(high_alpha, v_scale_colors);
+        let high_alpha = _mm256_div_ps(
+            v_max_colors,
+            _mm256_cvtepi32_ps(_mm256_unpackhi_epi16(pixel.3, zeros)),
+        );
 
-        let mut new_rrr = _mm256_scale_by_alpha::<FMA>(pixel.0, low_alpha, high_alpha);
+        let mut new_rrr = _mm256_scale_by_alpha(pixel.0, low_alpha, high_alpha, v_max_colors);
         new_rrr = _mm256_select_si256(is_zero_alpha_mask, pixel.0, new_rrr);
-        let mut new_ggg = _mm256_scale_by_alpha::<FMA>(pixel.1, low_alpha, high_alpha);
+        let mut new_ggg = _mm256_scale_by_alpha(pixel.1, low_alpha, high_alpha, v_max_colors);
         new_ggg = _mm256_select_si256(is_zero_alpha_mask, pixel.1, new_ggg);
-        let mut new_bbb = _mm256_scale_by_alpha::<FMA>(pixel.2, low_alpha, high_alpha);
+        let mut new_bbb = _mm256_scale_by_alpha(pixel.2, low_alpha, high_alpha, v_max_colors);
         new_bbb = _mm256_select_si256(is_zero_alpha_mask, pixel.2, new_bbb);
 
         let (d_lane0, d_lane1, d_lane2, d_lane3) =
diff --git a/src/sse/alpha_u16.rs b/src/sse/alpha_u16.rs
index 8b903e2..ab6d4be 100644
--- a/src/sse/alpha_u16.rs
+++ b/src/sse/alpha_u16.rs
@@ -43,21 +43,22 @@ unsafe fn sse_unpremultiply_row_u16(
     is_zero_mask: __m128i,
     a_lo_f: __m128,
     a_hi_f: __m128,
+    v_max_colors: __m128,
 ) -> __m128i {
     let zeros = _mm_setzero_si128();
     let lo = _mm_unpacklo_epi16(x, zeros);
     let hi = _mm_unpackhi_epi16(x, zeros);
 
-    let new_lo = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_lo = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(lo), a_lo_f),
+        v_max_colors,
     ));
-    let new_hi = _mm_cvtps_epi32(_mm_add_ps(
-        _mm_set1_ps(0.5f32),
+    let new_hi = _mm_cvtps_epi32(_mm_min_ps(
         _mm_mul_ps(_mm_cvtepi32_ps(hi), a_hi_f),
+        v_max_colors,
     ));
 
-    let pixel = _mm_packs_epi32(new_lo, new_hi);
+    let pixel = _mm_packus_epi32(new_lo, new_hi);
     _mm_select_si128(is_zero_mask, x, pixel)
 }
 
@@ -130,24 +131,18 @@ impl DisassociateAlphaDefault {
         let (rrrr, gggg, bbbb, aaaa) = sse_deinterleave_rgba_epi16(row0, row1, row2, row3);
 
         let is_zero_mask = _mm_cmpeq_epi16(aaaa, _mm_setzero_si128());
-        let a_lo_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpacklo_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_lo_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpacklo_epi16(aaaa, _mm_setzero_si128())),
         );
-        let a_hi_f = _mm_mul_ps(
-            _mm_rcp_ps(_mm_cvtepi32_ps(_mm_unpackhi_epi16(
-                aaaa,
-                _mm_setzero_si128(),
-            ))),
+        let a_hi_f = _mm_div_ps(
             v_max_colors,
+            _mm_cvtepi32_ps(_mm_unpackhi_epi16(aaaa, _mm_setzero_si128())),
         );
 
-        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f);
-        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f);
-        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f);
+        let new_rrrr = sse_unpremultiply_row_u16(rrrr, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_gggg = sse_unpremultiply_row_u16(gggg, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
+        let new_bbbb = sse_unpremultiply_row_u16(bbbb, is_zero_mask, a_lo_f, a_hi_f, v_max_colors);
 
         let (rgba0, rgba1, rgba2, rgba3) =
             sse_interleave_rgba_epi16(new_rrrr, new_gggg, new_bbbb, aaaa);
-- 
2.43.0


From eb84db93c89b60eab75a625638499e77e111026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 27/47] fix: AVX-512 alpha check ignores the last pixels of a
 row

---
 src/avx512/check_alpha.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 32cfd53..8aa974a 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -65,7 +65,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
         let row = &row[0..width * 4];
         let mut sums = _mm512_set1_epi32(0);
 
-        for chunk in row.chunks_exact(64) {
+        for chunk in row.chunks(64) {
             let working_mask: __mmask64 = if chunk.len() == 64 {
                 0xffff_ffff_ffff_ffff
             } else {
-- 
2.43.0


From 405669577ba82b5c2c191832b085e755c200a44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 28/47] fix: u8 unpremultiply turns colors far above alpha
 black (AVX2, AVX-512)

---
 src/avx2/alpha_u8.rs   |  4 ++--
 src/avx512/alpha_u8.rs | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index fd28c6c..f25467d 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -238,8 +238,8 @@ impl Avx2DisassociateAlpha {
         let hi_lo = _mm256_cvtps_epi32(fhlw);
         let hi_hi = _mm256_cvtps_epi32(fhhw);
 
-        let packed0 = _mm256_packus_epi32(lo_lo, lo_hi);
-        let packed1 = _mm256_packus_epi32(hi_lo, hi_hi);
+        let packed0 = _mm256_packs_epi32(lo_lo, lo_hi);
+        let packed1 = _mm256_packs_epi32(hi_lo, hi_hi);
 
         _mm256_select_si256(is_zero_mask, zeros, _mm256_packus_epi16(packed0, packed1))
     }
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index a2f15ad..ca6c378 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -183,8 +183,8 @@ impl<const HAS_VBMI: bool> Avx512DisassociateAlpha<HAS_VBMI> {
         let hi_hi = _mm512_cvtps_epi32(_mm512_mul_ps(hi_hi, a_hi_hi));
 
         let packed = _mm512_packus_epi16(
-            _mm512_packus_epi32(lo_lo, lo_hi),
-            _mm512_packus_epi32(hi_lo, hi_hi),
+            _mm512_packs_epi32(lo_lo, lo_hi),
+            _mm512_packs_epi32(hi_lo, hi_hi),
         );
         _mm512_mask_blend_epi8(is_zero_mask, packed, _mm512_setzero_si512())
     }
@@ -291,8 +291,12 @@ impl<const HAS_VBMI: bool> Avx512DisassociateAlphaFloat16<HAS_VBMI> {
         let a_lo = _mm512_rcp_ph(_mm512_cvtepu16_ph(a_lo));
         let a_hi = _mm512_rcp_ph(_mm512_cvtepu16_ph(a_hi));
         const FLAGS: i32 = _MM_FROUND_TO_NEAREST_INT | _MM_FROUND_NO_EXC;
-        let lo = _mm512_cvtph_epi16(_mm512_mul_round_ph::<FLAGS>(lo, a_lo));
-        let hi = _mm512_cvtph_epi16(_mm512_mul_round_ph::<FLAGS>(hi, a_hi));
+        // colors above alpha are out of the range of the conversion
+        let max_color = _mm512_castsi512_ph(_mm512_set1_epi16(23544));
+        let lo = _mm512_min_ph(_mm512_mul_round_ph::<FLAGS>(lo, a_lo), max_color);
+        let hi = _mm512_min_ph(_mm512_mul_round_ph::<FLAGS>(hi, a_hi), max_color);
+        let lo = _mm512_cvtph_epi16(lo);
+        let hi = _mm512_cvtph_epi16(hi);
 
         let packed = _mm512_packus_epi16(lo, hi);
         _mm512_mask_blend_epi8(is_zero_mask, packed, _mm512_setzero_si512())
-- 
2.43.0


From 72f7dc13ad2ce8a5d430d298f2db276f02448716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 29/47] fix: color space scalers ignore the strides of both
 images

---
 src/colors/jzazbz_scaler.rs         | 10 ++++++----
 src/colors/lab_scaler.rs            | 10 ++++++----
 src/colors/lch_scaler.rs            | 10 ++++++----
 src/colors/linear_precise_scaler.rs | 10 ++++++----
 src/colors/linear_scaler.rs         | 10 ++++++----
 src/colors/luv_scaler.rs            | 10 ++++++----
 src/colors/oklab_scaler.rs          | 10 ++++++----
 src/colors/sigmoidal_scaler.rs      | 10 ++++++----
 src/colors/xyz_scaler.rs            | 10 ++++++----
 9 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/src/colors/jzazbz_scaler.rs b/src/colors/jzazbz_scaler.rs
index a4d344a..bebdb41 100644
--- a/src/colors/jzazbz_scaler.rs
+++ b/src/colors/jzazbz_scaler.rs
@@ -64,7 +64,7 @@ impl JzazbzScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -88,11 +88,12 @@ impl JzazbzScaler {
         store: &ImageStoreMut<'a, f32, 4>,
         into: &mut ImageStoreMut<'a, u8, 4>,
     ) {
+        let into_stride = into.stride();
         jzazbz_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride as u32,
             store.width as u32,
             store.height as u32,
             self.display_luminance,
@@ -151,7 +152,7 @@ impl Scaling for JzazbzScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_jzazbz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -176,11 +177,12 @@ impl Scaling for JzazbzScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         jzazbz_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             self.display_luminance,
diff --git a/src/colors/lab_scaler.rs b/src/colors/lab_scaler.rs
index cec1421..f53c13a 100644
--- a/src/colors/lab_scaler.rs
+++ b/src/colors/lab_scaler.rs
@@ -54,7 +54,7 @@ impl LabScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lab_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -74,11 +74,12 @@ impl LabScaler {
     }
 
     fn laba_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride();
         lab_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride as u32,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -138,7 +139,7 @@ impl Scaling for LabScaler {
 
         rgb_to_lab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -162,11 +163,12 @@ impl Scaling for LabScaler {
 
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride();
         lab_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/lch_scaler.rs b/src/colors/lch_scaler.rs
index db1b2d6..179571d 100644
--- a/src/colors/lch_scaler.rs
+++ b/src/colors/lch_scaler.rs
@@ -55,7 +55,7 @@ impl LChScaler {
         let lab_stride = store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_lch_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * 4u32,
+            store.stride() as u32,
             &mut source_slice,
             lab_stride,
             store.width as u32,
@@ -75,11 +75,12 @@ impl LChScaler {
     }
 
     fn lcha_to_srgba<'a>(store: &ImageStoreMut<'a, f32, 4>, into: &mut ImageStoreMut<'a, u8, 4>) {
+        let into_stride = into.stride();
         lch_with_alpha_to_rgba(
             store.buffer.borrow(),
             store.width as u32 * 4u32 * std::mem::size_of::<f32>() as u32,
             into.buffer.borrow_mut(),
-            store.width as u32 * 4u32,
+            into_stride as u32,
             store.width as u32,
             store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -141,7 +142,7 @@ impl Scaling for LChScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_lch(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -166,11 +167,12 @@ impl Scaling for LChScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         lch_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 417c89b..4c6aa44 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearScaler {
 
         rgb_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride();
         linear_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -191,7 +192,7 @@ impl Scaling for LinearScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_linear(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -215,11 +216,12 @@ impl Scaling for LinearScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         linear_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             TransferFunction::Srgb,
diff --git a/src/colors/linear_scaler.rs b/src/colors/linear_scaler.rs
index 7189346..682482d 100644
--- a/src/colors/linear_scaler.rs
+++ b/src/colors/linear_scaler.rs
@@ -118,7 +118,7 @@ impl Scaling for LinearApproxScaler {
 
         rgb_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -141,11 +141,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgb(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride();
         linear_u8_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -195,7 +196,7 @@ impl Scaling for LinearApproxScaler {
 
         rgba_to_linear_u8(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -218,11 +219,12 @@ impl Scaling for LinearApproxScaler {
             .resize_rgba(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<u8>() as u32;
+        let into_stride = into.stride();
         linear_u8_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/luv_scaler.rs b/src/colors/luv_scaler.rs
index a1df0c8..409f92b 100644
--- a/src/colors/luv_scaler.rs
+++ b/src/colors/luv_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_luv(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -129,11 +129,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         luv_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
@@ -183,7 +184,7 @@ impl Scaling for LuvScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_luv_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -208,11 +209,12 @@ impl Scaling for LuvScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         luv_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
diff --git a/src/colors/oklab_scaler.rs b/src/colors/oklab_scaler.rs
index b74f7c4..9192d3d 100644
--- a/src/colors/oklab_scaler.rs
+++ b/src/colors/oklab_scaler.rs
@@ -104,7 +104,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -128,11 +128,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         oklab_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
@@ -181,7 +182,7 @@ impl Scaling for OklabScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_oklab(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -205,11 +206,12 @@ impl Scaling for OklabScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         oklab_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             self.transfer_function,
diff --git a/src/colors/sigmoidal_scaler.rs b/src/colors/sigmoidal_scaler.rs
index bf9b963..d11a2d1 100644
--- a/src/colors/sigmoidal_scaler.rs
+++ b/src/colors/sigmoidal_scaler.rs
@@ -100,7 +100,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgb_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -123,11 +123,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         sigmoidal_to_rgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -175,7 +176,7 @@ impl Scaling for SigmoidalScaler {
             lab_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
         rgba_to_sigmoidal(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -198,11 +199,12 @@ impl Scaling for SigmoidalScaler {
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
 
+        let into_stride = into.stride();
         sigmoidal_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
         );
diff --git a/src/colors/xyz_scaler.rs b/src/colors/xyz_scaler.rs
index ae8a32e..baf2a4e 100644
--- a/src/colors/xyz_scaler.rs
+++ b/src/colors/xyz_scaler.rs
@@ -105,7 +105,7 @@ impl Scaling for XYZScaler {
 
         srgb_to_xyz(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -127,11 +127,12 @@ impl Scaling for XYZScaler {
             .resize_rgb_f32(&new_immutable_store, &mut new_store)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride();
         xyz_to_srgb(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
         );
@@ -180,7 +181,7 @@ impl Scaling for XYZScaler {
 
         rgba_to_xyz_with_alpha(
             store.buffer.as_ref(),
-            store.width as u32 * COMPONENTS as u32,
+            store.stride() as u32,
             lab_store.buffer.borrow_mut(),
             lab_stride,
             lab_store.width as u32,
@@ -204,11 +205,12 @@ impl Scaling for XYZScaler {
             .resize_rgba_f32(&new_immutable_store, &mut new_store, premultiply_alpha)?;
         let new_lab_stride =
             new_store.width as u32 * COMPONENTS as u32 * std::mem::size_of::<f32>() as u32;
+        let into_stride = into.stride();
         xyz_with_alpha_to_rgba(
             new_store.buffer.borrow(),
             new_lab_stride,
             into.buffer.borrow_mut(),
-            into.width as u32 * COMPONENTS as u32,
+            into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
             &XYZ_TO_SRGB_D65,
-- 
2.43.0


From f28e4c6825549643678850f032bedae4218a0c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 30/47] fix: copies of a strided image store lose its stride

---
 src/image_store.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 69407fd..8308267 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -430,7 +430,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -497,7 +497,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
@@ -508,7 +508,7 @@ where
             channels: N,
             width: self.width,
             height: self.height,
-            stride: self.width * N,
+            stride: self.stride(),
             bit_depth: self.bit_depth,
         }
     }
-- 
2.43.0


From d934e86f2c59e6a54682de77e868a3342386a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:44 +0000
Subject: [PATCH 31/47] fix: copied_to_mut writes the padding of the source
 into the destination

---
 src/image_store.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index 8308267..ee7ae84 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -437,13 +437,14 @@ where
 
     pub fn copied_to_mut(&self, into: &mut ImageStoreMut<T, N>) {
         let into_stride = into.stride();
+        let row_length = self.width * N;
         for (src_row, dst_row) in self
             .buffer
             .as_ref()
             .chunks_exact(self.stride())
             .zip(into.buffer.borrow_mut().chunks_exact_mut(into_stride))
         {
-            for (&src, dst) in src_row.iter().zip(dst_row.iter_mut()) {
+            for (&src, dst) in src_row.iter().take(row_length).zip(dst_row.iter_mut()) {
                 *dst = src;
             }
         }
-- 
2.43.0


From 3ed0e3bec904665eab21e511aec99d9fd4b227e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 32/47] fix: filter window is shifted to the left and misses a
 tap on the right

---
 src/scaler.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/scaler.rs b/src/scaler.rs
index bf84d0b..6267b91 100644
--- a/src/scaler.rs
+++ b/src/scaler.rs
@@ -410,12 +410,11 @@ impl Scaler {
                 let mut weights_sum: T = 0f32.as_();
                 let mut local_filter_iteration = 0usize;
 
-                let start: usize = (center_x - filter_radius).floor().max(0f32.as_()).as_();
-                let end: usize = (center_x + filter_radius)
-                    .ceil()
-                    .min(start.as_() + kernel_size.as_())
-                    .min(in_size.as_())
-                    .as_();
+                // Taps are the `kernel_size` pixels whose centers are nearest to the center
+                let window_start = (center_x - filter_radius + 0.5.as_()).floor();
+                let start: usize = window_start.max(0f32.as_()).as_();
+                let start = start.min(in_size - 1);
+                let end: usize = (window_start + kernel_size.as_()).min(in_size.as_()).as_();
 
                 let center = center_x - 0.5.as_();
 
-- 
2.43.0


From 054d70cc880a49daab29f7ffb33cece535bdc367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 33/47] fix: VNNI RGBA u8 single row kernel truncates instead
 of rounding

---
 src/avx512/rgba_u8_dot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avx512/rgba_u8_dot.rs b/src/avx512/rgba_u8_dot.rs
index c4caa1d..d29cd83 100644
--- a/src/avx512/rgba_u8_dot.rs
+++ b/src/avx512/rgba_u8_dot.rs
@@ -405,7 +405,7 @@ unsafe fn convolve_horizontal_rgba_vnni_rows_one_impl(
 
     let permute_avx_weights = _mm256_setr_epi32(0, 0, 0, 0, 1, 1, 1, 1);
 
-    let vld = _mm_set1_epi32(PRECISION);
+    let vld = _mm_set1_epi32(ROUNDING_CONST);
 
     for ((dst, bounds), weights) in dst
         .chunks_exact_mut(CHANNELS)
-- 
2.43.0


From 2aaaf13277e81f384b1cc553b80c21d3fb8a55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:28 +0000
Subject: [PATCH 34/47] fix: u8 low precision kernels brighten the image by up
 to one level per pass

---
 src/avx2/rgba_u8_lb.rs       | 10 +++++-----
 src/avx2/vertical_u8_lp.rs   | 10 +++++-----
 src/avx512/vertical_u8_lp.rs |  4 ++--
 src/sse/cbcr8_hrs.rs         | 10 +++++-----
 src/sse/plane_u8_hrs.rs      | 10 +++++-----
 src/sse/rgba_u8_lb.rs        | 16 ++++++++--------
 src/sse/vertical_u8_lp.rs    |  8 ++++----
 7 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/avx2/rgba_u8_lb.rs b/src/avx2/rgba_u8_lb.rs
index fd4267e..72a5eb9 100644
--- a/src/avx2/rgba_u8_lb.rs
+++ b/src/avx2/rgba_u8_lb.rs
@@ -45,7 +45,7 @@ unsafe fn convolve_horizontal_parts_one_rgba_sse(
 
     let src_ptr_32 = src_ptr.as_ptr() as *const i32;
     let rgba_pixel = _mm_cvtsi32_si128(src_ptr_32.read_unaligned());
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(rgba_pixel, rgba_pixel));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), rgba_pixel));
 
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
@@ -64,8 +64,8 @@ pub(crate) fn convolve_horizontal_rgba_avx_rows_4_lb(
 
 #[inline(always)]
 unsafe fn hdot4(store: __m256i, v0: __m256i, w01: __m256i, w23: __m256i) -> __m256i {
-    let lo0 = _mm256_srli_epi16::<2>(_mm256_unpacklo_epi8(v0, v0));
-    let hi0 = _mm256_srli_epi16::<2>(_mm256_unpackhi_epi8(v0, v0));
+    let lo0 = _mm256_srli_epi16::<2>(_mm256_unpacklo_epi8(_mm256_setzero_si256(), v0));
+    let hi0 = _mm256_srli_epi16::<2>(_mm256_unpackhi_epi8(_mm256_setzero_si256(), v0));
     let mut p = _mm256_mulhrs_epi16(lo0, w01);
     p = _mm256_add_epi16(p, _mm256_mulhrs_epi16(hi0, w23));
     _mm256_add_epi16(store, p)
@@ -73,13 +73,13 @@ unsafe fn hdot4(store: __m256i, v0: __m256i, w01: __m256i, w23: __m256i) -> __m2
 
 #[inline(always)]
 unsafe fn hdot2(store: __m256i, v: __m256i, w0123: __m256i) -> __m256i {
-    let lo = _mm256_srli_epi16::<2>(_mm256_unpacklo_epi8(v, v));
+    let lo = _mm256_srli_epi16::<2>(_mm256_unpacklo_epi8(_mm256_setzero_si256(), v));
     _mm256_add_epi16(store, _mm256_mulhrs_epi16(lo, w0123))
 }
 
 #[inline(always)]
 unsafe fn hdot(store: __m128i, v: __m128i, w01: __m128i) -> __m128i {
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v, v));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), v));
     _mm_add_epi16(store, _mm_mulhrs_epi16(lo, w01))
 }
 
diff --git a/src/avx2/vertical_u8_lp.rs b/src/avx2/vertical_u8_lp.rs
index f6dcda0..96e852f 100644
--- a/src/avx2/vertical_u8_lp.rs
+++ b/src/avx2/vertical_u8_lp.rs
@@ -53,8 +53,8 @@ unsafe fn m256dot(
     row: __m256i,
     weight: __m256i,
 ) -> (__m256i, __m256i) {
-    let lo = _mm256_unpacklo_epi8(row, row);
-    let hi = _mm256_unpackhi_epi8(row, row);
+    let lo = _mm256_unpacklo_epi8(_mm256_setzero_si256(), row);
+    let hi = _mm256_unpackhi_epi8(_mm256_setzero_si256(), row);
 
     let store0 = _mm256_add_epi16(
         store0,
@@ -340,7 +340,7 @@ unsafe fn convolve_vertical_avx2_row_impl(
             let mut item_row = _mm256_permute4x64_epi64::<0x50>(_mm256_castsi128_si256(
                 _mm_loadu_si128(src_ptr.as_ptr() as *const __m128i),
             ));
-            item_row = _mm256_unpacklo_epi8(item_row, item_row);
+            item_row = _mm256_unpacklo_epi8(_mm256_setzero_si256(), item_row);
             store0 = _mm256_add_epi16(
                 store0,
                 _mm256_mulhrs_epi16(_mm256_srli_epi16::<2>(item_row), v_weight),
@@ -372,7 +372,7 @@ unsafe fn convolve_vertical_avx2_row_impl(
             let v_offset = src_stride * py + px;
             let src_ptr = src.get_unchecked(v_offset..);
             let mut item_row = _mm_loadu_si64(src_ptr.as_ptr());
-            item_row = _mm_unpacklo_epi8(item_row, item_row);
+            item_row = _mm_unpacklo_epi8(_mm_setzero_si128(), item_row);
 
             let low = _mm_srli_epi16::<2>(item_row);
             store = _mm_add_epi16(store, _mm_mulhrs_epi16(low, v_weight));
@@ -404,7 +404,7 @@ unsafe fn convolve_vertical_avx2_row_impl(
             store = _mm_add_epi16(
                 store,
                 _mm_mulhrs_epi16(
-                    _mm_srli_epi16::<2>(_mm_unpacklo_epi8(item_row, item_row)),
+                    _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), item_row)),
                     v_weight,
                 ),
             );
diff --git a/src/avx512/vertical_u8_lp.rs b/src/avx512/vertical_u8_lp.rs
index 71e2e0d..fffc8b0 100644
--- a/src/avx512/vertical_u8_lp.rs
+++ b/src/avx512/vertical_u8_lp.rs
@@ -52,8 +52,8 @@ unsafe fn m512dot(
     row: __m512i,
     weight: __m512i,
 ) -> (__m512i, __m512i) {
-    let lo = _mm512_unpacklo_epi8(row, row);
-    let hi = _mm512_unpackhi_epi8(row, row);
+    let lo = _mm512_unpacklo_epi8(_mm512_setzero_si512(), row);
+    let hi = _mm512_unpackhi_epi8(_mm512_setzero_si512(), row);
 
     let lwo = _mm512_srli_epi16::<2>(lo);
     let hwo = _mm512_srli_epi16::<2>(hi);
diff --git a/src/sse/cbcr8_hrs.rs b/src/sse/cbcr8_hrs.rs
index 886685e..f19ff79 100644
--- a/src/sse/cbcr8_hrs.rs
+++ b/src/sse/cbcr8_hrs.rs
@@ -58,7 +58,7 @@ unsafe fn conv_cb_cr_1(start_x: usize, src: &[u8], weight0: __m128i, store_0: __
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let vl = _mm_loadu_si16(src_ptr);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(vl, vl));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), vl));
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
 
@@ -67,7 +67,7 @@ unsafe fn conv_cb_cr_2(start_x: usize, src: &[u8], weight0: __m128i, store_0: __
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let vl = _mm_loadu_si32(src_ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(vl, vl));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), vl));
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
 
@@ -76,7 +76,7 @@ unsafe fn conv_cb_cr_4(start_x: usize, src: &[u8], weight0: __m128i, store_0: __
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let vl = _mm_loadu_si64(src_ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(vl, vl));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), vl));
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
 
@@ -91,8 +91,8 @@ unsafe fn conv_cb_cr_8(
     const COMPONENTS: usize = 2;
     let src_ptr = src.get_unchecked((start_x * COMPONENTS)..).as_ptr();
     let values = _mm_loadu_si128(src_ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(values, values));
-    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(values, values));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), values));
+    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(_mm_setzero_si128(), values));
     let p = _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, w0));
     _mm_add_epi16(p, _mm_mulhrs_epi16(hi, w1))
 }
diff --git a/src/sse/plane_u8_hrs.rs b/src/sse/plane_u8_hrs.rs
index 75c65b7..8c66b8d 100644
--- a/src/sse/plane_u8_hrs.rs
+++ b/src/sse/plane_u8_hrs.rs
@@ -55,7 +55,7 @@ pub(crate) unsafe fn _mm_hsum_epi16_and_compress<const PRECISION: i32>(x: __m128
 unsafe fn s_accumulate_1_horiz(store: __m128i, ptr: *const u8, weight: __m128i) -> __m128i {
     let value = ptr.read_unaligned() as i8;
     let pixel_colors = _mm_srli_epi16::<2>(_mm_setr_epi8(
-        value, value, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+        0, value, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
     ));
     _mm_add_epi16(store, _mm_mulhrs_epi16(pixel_colors, weight))
 }
@@ -64,7 +64,7 @@ unsafe fn s_accumulate_1_horiz(store: __m128i, ptr: *const u8, weight: __m128i)
 #[inline(always)]
 unsafe fn s_accumulate_4_horiz(store: __m128i, ptr: *const u8, weight: __m128i) -> __m128i {
     let px = _mm_loadu_si32(ptr as *const _);
-    let pixel_colors = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(px, px));
+    let pixel_colors = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), px));
     _mm_add_epi16(store, _mm_mulhrs_epi16(pixel_colors, weight))
 }
 
@@ -72,7 +72,7 @@ unsafe fn s_accumulate_4_horiz(store: __m128i, ptr: *const u8, weight: __m128i)
 #[inline(always)]
 unsafe fn s_accumulate_8_horiz(store: __m128i, ptr: *const u8, weight: __m128i) -> __m128i {
     let px = _mm_loadu_si64(ptr as *const _);
-    let pixel_colors = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(px, px));
+    let pixel_colors = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), px));
     _mm_add_epi16(store, _mm_mulhrs_epi16(pixel_colors, weight))
 }
 
@@ -84,8 +84,8 @@ unsafe fn s_accumulate_16_horiz(
     weight: (__m128i, __m128i),
 ) -> __m128i {
     let px = _mm_loadu_si128(ptr as *const _);
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(px, px));
-    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(px, px));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), px));
+    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(_mm_setzero_si128(), px));
 
     let v0 = _mm_add_epi16(store, _mm_mulhrs_epi16(lo, weight.0));
     _mm_add_epi16(v0, _mm_mulhrs_epi16(hi, weight.1))
diff --git a/src/sse/rgba_u8_lb.rs b/src/sse/rgba_u8_lb.rs
index f3c4cb7..6a4b5e4 100644
--- a/src/sse/rgba_u8_lb.rs
+++ b/src/sse/rgba_u8_lb.rs
@@ -45,7 +45,7 @@ unsafe fn convolve_horizontal_parts_one_rgba_sse(
 
     let src_ptr_32 = src_ptr.as_ptr() as *const i32;
     let rgba_pixel = _mm_cvtsi32_si128(src_ptr_32.read_unaligned());
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(rgba_pixel, rgba_pixel));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), rgba_pixel));
 
     _mm_add_epi16(store_0, _mm_mulhrs_epi16(lo, weight0))
 }
@@ -72,10 +72,10 @@ unsafe fn hdot4(
     w45: __m128i,
     w67: __m128i,
 ) -> __m128i {
-    let lo0 = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v0, v0));
-    let hi0 = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(v0, v0));
-    let lo1 = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v1, v1));
-    let hi1 = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(v1, v1));
+    let lo0 = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), v0));
+    let hi0 = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(_mm_setzero_si128(), v0));
+    let lo1 = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), v1));
+    let hi1 = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(_mm_setzero_si128(), v1));
     let mut p = _mm_mulhrs_epi16(lo0, w01);
     p = _mm_add_epi16(p, _mm_mulhrs_epi16(hi0, w23));
     p = _mm_add_epi16(p, _mm_mulhrs_epi16(lo1, w45));
@@ -85,8 +85,8 @@ unsafe fn hdot4(
 
 #[inline(always)]
 unsafe fn hdot2(store: __m128i, v: __m128i, w01: __m128i, w23: __m128i) -> __m128i {
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v, v));
-    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(v, v));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), v));
+    let hi = _mm_srli_epi16::<2>(_mm_unpackhi_epi8(_mm_setzero_si128(), v));
     let mut p = _mm_mulhrs_epi16(lo, w01);
     p = _mm_add_epi16(p, _mm_mulhrs_epi16(hi, w23));
     _mm_add_epi16(store, p)
@@ -94,7 +94,7 @@ unsafe fn hdot2(store: __m128i, v: __m128i, w01: __m128i, w23: __m128i) -> __m12
 
 #[inline(always)]
 unsafe fn hdot(store: __m128i, v: __m128i, w01: __m128i) -> __m128i {
-    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(v, v));
+    let lo = _mm_srli_epi16::<2>(_mm_unpacklo_epi8(_mm_setzero_si128(), v));
     _mm_add_epi16(store, _mm_mulhrs_epi16(lo, w01))
 }
 
diff --git a/src/sse/vertical_u8_lp.rs b/src/sse/vertical_u8_lp.rs
index f10fdc8..1569974 100644
--- a/src/sse/vertical_u8_lp.rs
+++ b/src/sse/vertical_u8_lp.rs
@@ -52,8 +52,8 @@ unsafe fn mdot(
     row: __m128i,
     weight: __m128i,
 ) -> (__m128i, __m128i) {
-    let lo = _mm_unpacklo_epi8(row, row);
-    let hi = _mm_unpackhi_epi8(row, row);
+    let lo = _mm_unpacklo_epi8(_mm_setzero_si128(), row);
+    let hi = _mm_unpackhi_epi8(_mm_setzero_si128(), row);
 
     let store0 = _mm_add_epi16(store0, _mm_mulhrs_epi16(_mm_srli_epi16::<2>(lo), weight));
     let store1 = _mm_add_epi16(store1, _mm_mulhrs_epi16(_mm_srli_epi16::<2>(hi), weight));
@@ -282,7 +282,7 @@ unsafe fn convolve_vertical_sse_row_impl(
             let v_offset = src_stride * py + px;
             let src_ptr = src.get_unchecked(v_offset..);
             let mut item_row = _mm_loadu_si64(src_ptr.as_ptr());
-            item_row = _mm_unpacklo_epi8(item_row, item_row);
+            item_row = _mm_unpacklo_epi8(_mm_setzero_si128(), item_row);
 
             let low = _mm_srli_epi16::<2>(item_row);
             store = _mm_add_epi16(store, _mm_mulhrs_epi16(low, v_weight));
@@ -310,7 +310,7 @@ unsafe fn convolve_vertical_sse_row_impl(
             let v_offset = src_stride * py + px;
             let src_ptr = src.get_unchecked(v_offset..(v_offset + 1));
             let mut item_row = _mm_set1_epi8(src_ptr[0] as i8);
-            item_row = _mm_unpacklo_epi8(item_row, item_row);
+            item_row = _mm_unpacklo_epi8(_mm_setzero_si128(), item_row);
 
             store = _mm_add_epi16(
                 store,
-- 
2.43.0


From 78a6ffaae2c91f022fd659ebba662b14421af5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 35/47] fix: AR30 SSE row kernel divides by 2^16 and drops odd
 channels

---
 src/sse/horizontal_ar30.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sse/horizontal_ar30.rs b/src/sse/horizontal_ar30.rs
index cb9ef8b..0b3040f 100644
--- a/src/sse/horizontal_ar30.rs
+++ b/src/sse/horizontal_ar30.rs
@@ -334,12 +334,12 @@ unsafe fn sse_convolve_horizontal_rgba_row_impl<const AR_TYPE: usize, const AR_O
     filter_weights: &FilterWeights<i16>,
 ) {
     unsafe {
-        const PRECISION: i32 = 16;
+        const PRECISION: i32 = 15;
         const ROUNDING: i32 = (1 << (PRECISION - 1)) - 1;
 
         let init = _mm_set1_epi32(ROUNDING);
 
-        let v_cut_off = _mm_set1_epi32(1023);
+        let v_cut_off = _mm_set1_epi16(1023);
 
         for ((chunk0, &bounds), weights) in dst
             .chunks_exact_mut(4)
-- 
2.43.0


From d436df1c1acc4ec3edac2d2fcae7cb1a9fcc0a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 36/47] fix: AR30 SSE horizontal kernels take source pixels in
 the wrong order

---
 src/sse/u8_utils.rs | 29 ++++++-----------------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/sse/u8_utils.rs b/src/sse/u8_utils.rs
index c01cfd1..0991ed5 100644
--- a/src/sse/u8_utils.rs
+++ b/src/sse/u8_utils.rs
@@ -284,27 +284,10 @@ pub(crate) unsafe fn _mm_unzips_4_ar30_separate<const AR30_TYPE: usize, const AR
     v: __m128i,
 ) -> (__m128i, __m128i) {
     let values = _mm_unzips_3_ar30::<AR30_TYPE, AR30_ORDER>(v);
-    let a0 = (
-        _mm_unpacklo_epi16(values.0, values.1),
-        _mm_unpackhi_epi16(values.0, values.1),
-    );
-    let a1 = (
-        _mm_unpacklo_epi16(values.2, values.3),
-        _mm_unpackhi_epi16(values.2, values.3),
-    );
-    let v1 = (
-        _mm_unpacklo_epi32(a0.0, a1.0),
-        _mm_unpackhi_epi32(a0.0, a1.0),
-    );
-    let v2 = (
-        _mm_unpacklo_epi32(a0.1, a1.1),
-        _mm_unpackhi_epi32(a0.1, a1.1),
-    );
-    let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
-    let k3 = v2.1;
-    (_mm_unpacklo_epi64(k0, k1), _mm_unpacklo_epi64(k2, k3))
+    // Both halves of `values` are the same 4 pixels
+    let a0 = _mm_unpacklo_epi16(values.0, values.1);
+    let a1 = _mm_unpacklo_epi16(values.2, values.3);
+    (_mm_unpacklo_epi32(a0, a1), _mm_unpackhi_epi32(a0, a1))
 }
 
 #[inline(always)]
@@ -329,8 +312,8 @@ pub(crate) unsafe fn _mm_unzip_4_ar30_separate<const AR30_TYPE: usize, const AR3
         _mm_unpackhi_epi32(a0.1, a1.1),
     );
     let k0 = v1.0;
-    let k1 = v2.0;
-    let k2 = v1.1;
+    let k1 = v1.1;
+    let k2 = v2.0;
     let k3 = v2.1;
     (k0, k1, k2, k3)
 }
-- 
2.43.0


From ee8999cb233ea11895287eb750228f91c0c1a0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:28 +0000
Subject: [PATCH 37/47] fix: f16 unpremultiply multiplies colors by alpha

---
 src/avx2/alpha_f16.rs | 12 ++++++------
 src/sse/alpha_f16.rs  | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/avx2/alpha_f16.rs b/src/avx2/alpha_f16.rs
index 9cafee2..85632b6 100644
--- a/src/avx2/alpha_f16.rs
+++ b/src/avx2/alpha_f16.rs
@@ -174,17 +174,17 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let zeros = _mm256_setzero_ps();
         let low_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(low_alpha, zeros);
         let low_r = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.0)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.1)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm256_blendv_ps(
-            _mm256_mul_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
+            _mm256_div_ps(_mm256_cvtph_ps(_mm256_castsi256_si128(pixel.2)), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -192,7 +192,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
         let high_alpha = _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.3));
         let high_alpha_zero_mask = _mm256_cmp_ps::<_CMP_EQ_OS>(high_alpha, zeros);
         let high_r = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.0)),
                 high_alpha,
             ),
@@ -200,7 +200,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_g = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.1)),
                 high_alpha,
             ),
@@ -208,7 +208,7 @@ unsafe fn avx_unpremultiply_alpha_rgba_f16_row_impl(in_place: &mut [f16]) {
             high_alpha_zero_mask,
         );
         let high_b = _mm256_blendv_ps(
-            _mm256_mul_ps(
+            _mm256_div_ps(
                 _mm256_cvtph_ps(_mm256_extracti128_si256::<1>(pixel.2)),
                 high_alpha,
             ),
diff --git a/src/sse/alpha_f16.rs b/src/sse/alpha_f16.rs
index e0c6195..b0e84c2 100644
--- a/src/sse/alpha_f16.rs
+++ b/src/sse/alpha_f16.rs
@@ -227,17 +227,17 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let zeros = _mm_setzero_ps();
         let low_alpha_zero_mask = _mm_cmpeq_ps(low_alpha, zeros);
         let low_r = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.0), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_g = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.1), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
         let low_b = _mm_blendv_ps(
-            _mm_mul_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
+            _mm_div_ps(_mm_cvtph_psx::<F16C>(pixel.2), low_alpha),
             zeros,
             low_alpha_zero_mask,
         );
@@ -245,7 +245,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
         let high_alpha = _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.3));
         let high_alpha_zero_mask = _mm_cmpeq_ps(high_alpha, zeros);
         let high_r = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.0)),
                 high_alpha,
             ),
@@ -253,7 +253,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_g = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.1)),
                 high_alpha,
             ),
@@ -261,7 +261,7 @@ unsafe fn sse_unpremultiply_alpha_rgba_f16_row_impl<const F16C: bool>(in_place:
             high_alpha_zero_mask,
         );
         let high_b = _mm_blendv_ps(
-            _mm_mul_ps(
+            _mm_div_ps(
                 _mm_cvtph_psx::<F16C>(_mm_srli_si128::<8>(pixel.2)),
                 high_alpha,
             ),
-- 
2.43.0


From f27875b14643c78c2bca3122f3495d060317448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 38/47] fix: AVX2 and AVX-512 u8 premultiply squares alpha

---
 src/avx2/alpha_u8.rs   | 6 +++++-
 src/avx512/alpha_u8.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/avx2/alpha_u8.rs b/src/avx2/alpha_u8.rs
index f25467d..04ffcc4 100644
--- a/src/avx2/alpha_u8.rs
+++ b/src/avx2/alpha_u8.rs
@@ -68,7 +68,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm256_loadu_si256(src_ptr as *const __m256i);
-        let multiplicand = _mm256_shuffle_epi8(rgba0, shuffle);
+        // Alpha itself is stored as is, hence its multiplicand is 255
+        let multiplicand = _mm256_or_si256(
+            _mm256_shuffle_epi8(rgba0, shuffle),
+            _mm256_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm256_setzero_si256();
 
diff --git a/src/avx512/alpha_u8.rs b/src/avx512/alpha_u8.rs
index ca6c378..bc42b8c 100644
--- a/src/avx512/alpha_u8.rs
+++ b/src/avx512/alpha_u8.rs
@@ -58,7 +58,11 @@ impl AssociateAlphaDefault {
         );
         let src_ptr = src.as_ptr();
         let rgba0 = _mm512_maskz_loadu_epi8(working_mask, src_ptr as *const _);
-        let multiplicand = _mm512_shuffle_epi8(rgba0, shuffle);
+        // Alpha itself is stored as is, hence its multiplicand is 255
+        let multiplicand = _mm512_or_si512(
+            _mm512_shuffle_epi8(rgba0, shuffle),
+            _mm512_set1_epi32(0xff00_0000u32 as i32),
+        );
 
         let zeros = _mm512_setzero_si512();
 
-- 
2.43.0


From aed8d922296f4bc5dd6eb678ff3841ec95604498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:23 +0000
Subject: [PATCH 39/47] fix: f16 row kernels overwrite destination row padding

---
 src/f16.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/f16.rs b/src/f16.rs
index cc0dae9..066f01b 100644
--- a/src/f16.rs
+++ b/src/f16.rs
@@ -67,7 +67,7 @@ use core::{f16, f32};
 use rayon::ThreadPool;
 
 fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -85,13 +85,18 @@ fn convolve_horizontal_rgba_4_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
-        *dst = *src as f16;
+    for (dst, src) in dst
+        .chunks_exact_mut(dst_stride)
+        .zip(transient_dst.chunks_exact(dst_stride))
+    {
+        for (dst, src) in dst.iter_mut().zip(src.iter()).take(dst_width * CHANNELS) {
+            *dst = *src as f16;
+        }
     }
 }
 
 fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
-    _: usize,
+    dst_width: usize,
     _: usize,
     filter_weights: &FilterWeights<f32>,
     src: &[f16],
@@ -105,7 +110,11 @@ fn convolve_horizontal_rgb_native_row_f16<const CHANNELS: usize>(
         filter_weights,
         8,
     );
-    for (dst, src) in dst.iter_mut().zip(transient_dst.iter()) {
+    for (dst, src) in dst
+        .iter_mut()
+        .zip(transient_dst.iter())
+        .take(dst_width * CHANNELS)
+    {
         *dst = *src as f16;
     }
 }
-- 
2.43.0


From 1d564700b845118a3b14a38a8bd2d3c320be9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 40/47] fix: linear RGBA scaler ignores its transfer function

---
 src/colors/linear_precise_scaler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colors/linear_precise_scaler.rs b/src/colors/linear_precise_scaler.rs
index 4c6aa44..5f8c64e 100644
--- a/src/colors/linear_precise_scaler.rs
+++ b/src/colors/linear_precise_scaler.rs
@@ -197,7 +197,7 @@ impl Scaling for LinearScaler {
             lab_stride,
             lab_store.width as u32,
             lab_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         let new_immutable_store = ImageStore::<f32, COMPONENTS> {
@@ -224,7 +224,7 @@ impl Scaling for LinearScaler {
             into_stride as u32,
             new_store.width as u32,
             new_store.height as u32,
-            TransferFunction::Srgb,
+            self.transfer_function,
         );
 
         Ok(())
-- 
2.43.0


From 26dc28b9e58db9c17d90c50bc2e42d4a2dbdbaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 41/47] fix: Robidoux kernel uses C = 113 / (58 + 216 sqrt(2))

---
 src/math/bc_spline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/bc_spline.rs b/src/math/bc_spline.rs
index b676847..e356a4f 100644
--- a/src/math/bc_spline.rs
+++ b/src/math/bc_spline.rs
@@ -172,7 +172,7 @@ where
     bc_spline(
         x,
         12f32.as_() / (19f32.as_() + 9f32.as_() * V::const_sqrt2()),
-        13f32.as_() / (58f32.as_() + 216f32.as_() * V::const_sqrt2()),
+        113f32.as_() / (58f32.as_() + 216f32.as_() * V::const_sqrt2()),
     )
 }
 
-- 
2.43.0


From ae2cfc91322abc627205cd6907cfd899510be6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 42/47] fix: Gaussian kernel falls off with the square of the
 distance

---
 src/math/gaussian.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math/gaussian.rs b/src/math/gaussian.rs
index 7a1f371..cb469a0 100644
--- a/src/math/gaussian.rs
+++ b/src/math/gaussian.rs
@@ -29,12 +29,10 @@
 
 use crate::math::consts::ConstPI;
 use num_traits::{AsPrimitive, Float};
-use std::ops::{Mul, MulAssign, Neg};
+use std::ops::{Mul, Neg};
 
 #[inline(always)]
-pub(crate) fn gaussian<
-    V: ConstPI + Copy + Neg<Output = V> + Mul<Output = V> + MulAssign + 'static + Float,
->(
+pub(crate) fn gaussian<V: ConstPI + Copy + Neg<Output = V> + Mul<Output = V> + 'static + Float>(
     x: V,
 ) -> V
 where
@@ -42,7 +40,6 @@ where
 {
     let sigma: V = 0.35f32.as_();
     let pi = V::const_pi();
-    let mut den = 2f32.as_() * sigma * sigma;
-    den *= den;
-    (1f32.as_() / ((2f32.as_() * pi).sqrt() * sigma)) * (-x / den).exp()
+    let den = 2f32.as_() * sigma * sigma;
+    (1f32.as_() / ((2f32.as_() * pi).sqrt() * sigma)) * (-x * x / den).exp()
 }
-- 
2.43.0


From 4a0598b92b0546e303d567eae9c963a32a126d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:34 +0000
Subject: [PATCH 43/47] fix: Blackman kernel is a sinc under a window centred
 on it

---
 src/math/blackman.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math/blackman.rs b/src/math/blackman.rs
index b741774..24bbd40 100644
--- a/src/math/blackman.rs
+++ b/src/math/blackman.rs
@@ -49,7 +49,8 @@ where
 {
     let x = x.abs();
     if x < 2.0f32.as_() {
-        sinc(x) * blackman_window(x / 2f32.as_())
+        // the window peaks in the middle of 0..1
+        sinc(x * V::const_pi()) * blackman_window(0.5f32.as_() + x / 4f32.as_())
     } else {
         0f32.as_()
     }
-- 
2.43.0


From 39ade3633ef7b7a5c5f7a4925598340c3d193d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 44/47] fix: the C interface compiles: enable f16 and drop the
 unused FromPrimitive bound, which f16 lacks

---
 picscale/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/picscale/src/lib.rs b/picscale/src/lib.rs
index a835ca3..dafb4b2 100644
--- a/picscale/src/lib.rs
+++ b/picscale/src/lib.rs
@@ -26,8 +26,8 @@
  * OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
  * OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
  */
+#![feature(f16)]
 #![allow(unsafe_op_in_unsafe_fn)]
-use num_traits::FromPrimitive;
 use pic_scale::{
     BufferStore, ImageStore, ImageStoreMut, ImageStoreScaling, PicScaleError, ResamplingFunction,
     ScalingOptions,
@@ -71,7 +71,7 @@ fn map_error_code(error: Result<(), PicScaleError>) -> usize {
 
 fn pic_scale_scale_generic<
     'a,
-    T: Sized + Copy + Clone + Default + Debug + FromPrimitive + 'static,
+    T: Sized + Copy + Clone + Default + Debug + 'static,
     const N: usize,
 >(
     src: *const T,
-- 
2.43.0


From 90ca03f7ec666492b35262a6ad9e69aabcac639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:38 +0000
Subject: [PATCH 45/47] fix: C interface copies unaligned images element by
 element, for either unaligned address or stride

---
 picscale/src/lib.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/picscale/src/lib.rs b/picscale/src/lib.rs
index dafb4b2..7f33b5d 100644
--- a/picscale/src/lib.rs
+++ b/picscale/src/lib.rs
@@ -98,6 +98,13 @@ where
         let mut j_src_stride = src_stride / size_of_t;
 
         if src as usize % required_align_of_t != 0 || src_stride % size_of_t != 0 {
+            let row_size = width as usize * N * size_of_t;
+            if width == 0 || height == 0 {
+                return PicScaleError::ZeroImageDimensions.code();
+            }
+            if src_stride < row_size {
+                return PicScaleError::InvalidStride(row_size, src_stride).code();
+            }
             let mut _src_slice = vec![T::default(); width as usize * height as usize * N];
             let j = slice::from_raw_parts(src as *const u8, src_stride * height as usize);
 
@@ -105,7 +112,7 @@ where
                 .chunks_exact_mut(width as usize * N)
                 .zip(j.chunks_exact(src_stride))
             {
-                for (dst, src) in dst.iter_mut().zip(src.chunks_exact(N)) {
+                for (dst, src) in dst.iter_mut().zip(src.chunks_exact(size_of_t)) {
                     let src_pixel = src.as_ptr() as *const T;
                     *dst = src_pixel.read_unaligned();
                 }
@@ -137,7 +144,14 @@ where
         }
         options.resampling_function = resizing_filter.to_resampling();
 
-        if dst as usize % required_align_of_t != 0 && dst_stride % size_of_t != 0 {
+        if dst as usize % required_align_of_t != 0 || dst_stride % size_of_t != 0 {
+            let row_size = new_width as usize * N * size_of_t;
+            if new_width == 0 || new_height == 0 {
+                return PicScaleError::ZeroImageDimensions.code();
+            }
+            if dst_stride < row_size {
+                return PicScaleError::InvalidStride(row_size, dst_stride).code();
+            }
             let mut dst_store = ImageStoreMut::alloc_with_depth(
                 new_width as usize,
                 new_height as usize,
@@ -151,14 +165,14 @@ where
             }
 
             let dst_slice =
-                slice::from_raw_parts_mut(dst as *mut u8, new_width as usize * dst_stride);
+                slice::from_raw_parts_mut(dst as *mut u8, new_height as usize * dst_stride);
 
             for (src, dst) in dst_store
                 .as_bytes()
                 .chunks_exact(dst_store.stride())
                 .zip(dst_slice.chunks_exact_mut(dst_stride))
             {
-                for (src, dst) in src.iter().zip(dst.chunks_exact_mut(N)) {
+                for (src, dst) in src.iter().zip(dst.chunks_exact_mut(size_of_t)) {
                     let dst_ptr = dst.as_mut_ptr() as *mut T;
                     dst_ptr.write_unaligned(*src);
                 }
-- 
2.43.0


From 35bb5777bce8f7a2f9da8217225412aef1180c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:23 +0000
Subject: [PATCH 46/47] fix: alpha scans of AVX2, SSE and AVX-512 keep
 differences that sum to zero, and the u8 scan cannot overflow

---
 src/alpha_check.rs        |  2 +-
 src/avx2/check_alpha.rs   | 24 ++++++++++++------------
 src/avx512/check_alpha.rs |  2 +-
 src/sse/check_alpha.rs    | 20 ++++++++++----------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/alpha_check.rs b/src/alpha_check.rs
index 97293eb..6d71a4c 100644
--- a/src/alpha_check.rs
+++ b/src/alpha_check.rs
@@ -32,7 +32,7 @@ use std::ops::{AddAssign, BitXor};
 
 #[allow(dead_code)]
 pub(crate) fn has_non_constant_cap_alpha_rgba8(store: &[u8], width: usize, stride: usize) -> bool {
-    has_non_constant_cap_alpha::<u8, u32, 3, 4>(store, width, stride)
+    has_non_constant_cap_alpha::<u8, u64, 3, 4>(store, width, stride)
 }
 
 #[allow(dead_code)]
diff --git a/src/avx2/check_alpha.rs b/src/avx2/check_alpha.rs
index 2fd3446..39a3ee0 100644
--- a/src/avx2/check_alpha.rs
+++ b/src/avx2/check_alpha.rs
@@ -76,10 +76,10 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
             r2 = _mm256_xor_si256(_mm256_shuffle_epi8(r2, ash0), def_alpha);
             r3 = _mm256_xor_si256(_mm256_shuffle_epi8(r3, ash0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r0);
-            sums = _mm256_add_epi32(sums, r1);
-            sums = _mm256_add_epi32(sums, r2);
-            sums = _mm256_add_epi32(sums, r3);
+            sums = _mm256_or_si256(sums, r0);
+            sums = _mm256_or_si256(sums, r1);
+            sums = _mm256_or_si256(sums, r2);
+            sums = _mm256_or_si256(sums, r3);
         }
 
         let row = row.chunks_exact(32 * 4).remainder();
@@ -89,12 +89,12 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
 
             r0 = _mm256_xor_si256(_mm256_shuffle_epi8(r0, ash0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r0);
+            sums = _mm256_or_si256(sums, r0);
         }
 
         let row = row.chunks_exact(32).remainder();
 
-        let mut sums = _mm_add_epi32(
+        let mut sums = _mm_or_si128(
             _mm256_castsi256_si128(sums),
             _mm256_extracti128_si256::<1>(sums),
         );
@@ -107,7 +107,7 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
 
             let alphas = _mm_xor_si128(r0, def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
@@ -116,7 +116,7 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba8_impl(
         let mut h_sum = _mm_hsum_epi32(sums);
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
@@ -170,8 +170,8 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba16_impl(
             let r01 = _mm256_xor_si256(_mm256_unpacklo_epi32(r0, r1), def_alpha);
             let r23 = _mm256_xor_si256(_mm256_unpacklo_epi32(r2, r3), def_alpha);
 
-            sums = _mm256_add_epi32(sums, r01);
-            sums = _mm256_add_epi32(sums, r23);
+            sums = _mm256_or_si256(sums, r01);
+            sums = _mm256_or_si256(sums, r23);
         }
 
         let row = row.chunks_exact(16 * 4).remainder();
@@ -183,7 +183,7 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba16_impl(
 
             let alphas = _mm256_xor_si256(_mm256_unpacklo_epi32(r0, r0), def_alpha);
 
-            sums = _mm256_add_epi32(sums, alphas);
+            sums = _mm256_or_si256(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
@@ -195,7 +195,7 @@ unsafe fn avx_has_non_constant_cap_alpha_rgba16_impl(
         ));
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
diff --git a/src/avx512/check_alpha.rs b/src/avx512/check_alpha.rs
index 8aa974a..4cada18 100644
--- a/src/avx512/check_alpha.rs
+++ b/src/avx512/check_alpha.rs
@@ -77,7 +77,7 @@ unsafe fn avx512_has_non_constant_cap_alpha_rgba8_impl(
             r0 = _mm512_shuffle_epi8(r0, sh0);
             r0 = _mm512_xor_si512(r0, def_alpha);
 
-            sums = _mm512_add_epi32(sums, r0);
+            sums = _mm512_or_si512(sums, r0);
         }
 
         let h_sum = _mm512_reduce_add_epi32(sums);
diff --git a/src/sse/check_alpha.rs b/src/sse/check_alpha.rs
index 85133e3..82198f6 100644
--- a/src/sse/check_alpha.rs
+++ b/src/sse/check_alpha.rs
@@ -71,10 +71,10 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
             r2 = _mm_xor_si128(_mm_shuffle_epi8(r2, sh0), def_alpha);
             r3 = _mm_xor_si128(_mm_shuffle_epi8(r3, sh0), def_alpha);
 
-            sums = _mm_add_epi32(sums, r0);
-            sums = _mm_add_epi32(sums, r1);
-            sums = _mm_add_epi32(sums, r2);
-            sums = _mm_add_epi32(sums, r3);
+            sums = _mm_or_si128(sums, r0);
+            sums = _mm_or_si128(sums, r1);
+            sums = _mm_or_si128(sums, r2);
+            sums = _mm_or_si128(sums, r3);
         }
 
         let row = row.chunks_exact(16 * 4).remainder();
@@ -86,7 +86,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
 
             let alphas = _mm_xor_si128(r0, def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(16).remainder();
@@ -94,7 +94,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba8_impl(
         let mut h_sum = _mm_hsum_epi32(sums);
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
@@ -145,8 +145,8 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
             let r01 = _mm_xor_si128(_mm_unpacklo_epi32(r0, r1), def_alpha);
             let r23 = _mm_xor_si128(_mm_unpacklo_epi32(r2, r3), def_alpha);
 
-            sums = _mm_add_epi32(sums, r01);
-            sums = _mm_add_epi32(sums, r23);
+            sums = _mm_or_si128(sums, r01);
+            sums = _mm_or_si128(sums, r23);
         }
 
         let row = row.chunks_exact(8 * 4).remainder();
@@ -158,7 +158,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
 
             let alphas = _mm_xor_si128(_mm_unpacklo_epi32(r0, r0), def_alpha);
 
-            sums = _mm_add_epi32(sums, alphas);
+            sums = _mm_or_si128(sums, alphas);
         }
 
         let row = row.chunks_exact(8).remainder();
@@ -166,7 +166,7 @@ unsafe fn sse_has_non_constant_cap_alpha_rgba16_impl(
         let mut h_sum = _mm_hsum_epi32(sums);
 
         for chunk in row.chunks_exact(4) {
-            h_sum += chunk[3] as i32 ^ first_alpha as i32;
+            h_sum |= chunk[3] as i32 ^ first_alpha as i32;
         }
 
         if h_sum != 0 {
-- 
2.43.0


From 3c7c341e308b1b2097d2849297645efafb6f7fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:23 +0000
Subject: [PATCH 47/47] fix: image validation refuses sizes and strides whose
 product overflows instead of wrapping

---
 src/image_store.rs | 15 +++++++++++++--
 src/resize_ar30.rs |  8 ++++++--
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/image_store.rs b/src/image_store.rs
index ee7ae84..b260274 100644
--- a/src/image_store.rs
+++ b/src/image_store.rs
@@ -33,6 +33,7 @@ use crate::alpha_handle_f32::{premultiply_alpha_rgba_f32, unpremultiply_alpha_rg
 use crate::alpha_handle_u16::{premultiply_alpha_rgba_u16, unpremultiply_alpha_rgba_u16};
 use crate::alpha_handle_u8::{premultiply_alpha_rgba, unpremultiply_alpha_rgba};
 use crate::pic_scale_error::{PicScaleBufferMismatch, PicScaleError};
+use crate::support::check_image_size_overflow;
 use crate::ImageSize;
 #[cfg(feature = "nightly_f16")]
 use core::f16;
@@ -219,8 +220,13 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
+        if check_image_size_overflow(self.width, self.height, N)
+            || check_image_size_overflow(self.stride(), self.height, 1)
+        {
+            return Err(PicScaleError::DestinationImageIsTooLarge);
+        }
         let expected_size = self.stride() * self.height;
-        if self.buffer.borrow().len() != self.stride() * self.height {
+        if self.buffer.borrow().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
@@ -241,8 +247,13 @@ where
     T: Clone + Copy + Debug + Default,
 {
     pub(crate) fn validate(&self) -> Result<(), PicScaleError> {
+        if check_image_size_overflow(self.width, self.height, N)
+            || check_image_size_overflow(self.stride(), self.height, 1)
+        {
+            return Err(PicScaleError::SourceImageIsTooLarge);
+        }
         let expected_size = self.stride() * self.height;
-        if self.buffer.as_ref().len() != self.stride() * self.height {
+        if self.buffer.as_ref().len() != expected_size {
             return Err(PicScaleError::BufferMismatch(PicScaleBufferMismatch {
                 expected: expected_size,
                 width: self.width,
diff --git a/src/resize_ar30.rs b/src/resize_ar30.rs
index ffd013a..d5d6e5e 100644
--- a/src/resize_ar30.rs
+++ b/src/resize_ar30.rs
@@ -48,11 +48,15 @@ pub(crate) fn resize_ar30_impl<const AR30_TYPE: usize, const AR30_ORDER: usize>(
         return Err(PicScaleError::ZeroImageDimensions);
     }
 
-    if check_image_size_overflow(src_size.width, src_size.height, 4) {
+    if check_image_size_overflow(src_size.width, src_size.height, 4)
+        || check_image_size_overflow(src_stride, src_size.height, 1)
+    {
         return Err(PicScaleError::SourceImageIsTooLarge);
     }
 
-    if check_image_size_overflow(dst_size.width, dst_size.height, 4) {
+    if check_image_size_overflow(dst_size.width, dst_size.height, 4)
+        || check_image_size_overflow(dst_stride, dst_size.height, 1)
+    {
         return Err(PicScaleError::DestinationImageIsTooLarge);
     }
 
-- 
2.43.0

