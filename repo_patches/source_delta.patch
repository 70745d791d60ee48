From f91ab9353f051422f5aa6711d1f42958469e11fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 01/35] fix: compute transform-domain distortion without i32
 overflow

With more than 8 bits per sample transform coefficients can exceed 46340,
so squaring their difference overflowed i32: a panic with overflow checks,
a garbage distortion without.
---
 src/encoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 5c85320..86c8a64 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1626,14 +1626,14 @@ pub fn encode_tx_block<T: Pixel, W: Writer>(
         .iter()
         .zip(rcoeffs.iter())
         .map(|(&a, &b)| {
-          let c = i32::cast_from(a) - i32::cast_from(b);
+          let c = i64::from(i32::cast_from(a)) - i64::from(i32::cast_from(b));
           (c * c) as u64
         })
         .sum::<u64>()
         + coeffs[rcoeffs.len()..]
           .iter()
           .map(|&a| {
-            let c = i32::cast_from(a);
+            let c = i64::from(i32::cast_from(a));
             (c * c) as u64
           })
           .sum::<u64>();
-- 
2.43.0


From dbcba4102cca2ad7fe006c5f9dc6c7b844b61f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 02/35] fix: code chroma film grain fields only when chroma
 points are coded

For 4:0:0, for 4:2:0 without luma points and with chroma scaling from luma
the numbers of chroma scaling points are not coded and are taken as zero by
decoders, but the dependent AR coefficients and multipliers were still
written, which desynchronised the rest of the frame header.
---
 src/header.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 4217285..87e69e3 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -861,11 +861,18 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           } else {
             false
           };
-        if !(fi.sequence.chroma_sampling == ChromaSampling::Cs400
+        // The chroma scaling points, and everything that depends on their
+        // number, are only coded if chroma grain can be scaled on its own.
+        let code_chroma_points = !(fi.sequence.chroma_sampling
+          == ChromaSampling::Cs400
           || chroma_scaling_from_luma
           || (fi.sequence.chroma_sampling == ChromaSampling::Cs420
-            && grain_params.scaling_points_y.is_empty()))
-        {
+            && grain_params.scaling_points_y.is_empty()));
+        let has_cb_points =
+          code_chroma_points && !grain_params.scaling_points_cb.is_empty();
+        let has_cr_points =
+          code_chroma_points && !grain_params.scaling_points_cr.is_empty();
+        if code_chroma_points {
           self.write::<4, u8>(grain_params.scaling_points_cb.len() as u8)?;
           for point in &grain_params.scaling_points_cb {
             self.write::<8, u8>(point[0])?;
@@ -896,18 +903,14 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
           num_pos_chroma = num_pos_luma;
         }
 
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cb.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cb_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cb[i] as i16 + 128) as u8,
             )?;
           }
         }
-        if chroma_scaling_from_luma
-          || !grain_params.scaling_points_cr.is_empty()
-        {
+        if chroma_scaling_from_luma || has_cr_points {
           for i in 0..num_pos_chroma {
             self.write::<8, u8>(
               (grain_params.ar_coeffs_cr[i] as i16 + 128) as u8,
@@ -917,12 +920,12 @@ impl<W: io::Write> UncompressedHeader for BitWriter<W, BigEndian> {
 
         self.write::<2, u8>(grain_params.ar_coeff_shift - 6)?;
         self.write::<2, u8>(grain_params.grain_scale_shift)?;
-        if !grain_params.scaling_points_cb.is_empty() {
+        if has_cb_points {
           self.write::<8, u8>(grain_params.cb_mult)?;
           self.write::<8, u8>(grain_params.cb_luma_mult)?;
           self.write::<9, u16>(grain_params.cb_offset)?;
         }
-        if !grain_params.scaling_points_cr.is_empty() {
+        if has_cr_points {
           self.write::<8, u8>(grain_params.cr_mult)?;
           self.write::<8, u8>(grain_params.cr_luma_mult)?;
           self.write::<9, u16>(grain_params.cr_offset)?;
-- 
2.43.0


From 034b3e6aeca8a5ebb4120e7c52a572607c9b8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 03/35] fix: apply self-guided restoration when CDEF is
 disabled

The restoration units were signalled in the bitstream but the encoder
skipped applying them to its own reconstruction, so that decoders drifted
away from it.
---
 src/lrf.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lrf.rs b/src/lrf.rs
index 7a3d083..1e2c4f9 100644
--- a/src/lrf.rs
+++ b/src/lrf.rs
@@ -1542,10 +1542,6 @@ impl RestorationState {
               );
             }
             RestorationFilter::Sgrproj { set, xqd } => {
-              if !fi.sequence.enable_cdef {
-                continue;
-              }
-
               setup_integral_image(
                 &mut stripe_filter_buffer,
                 STRIPE_IMAGE_STRIDE,
-- 
2.43.0


From 1278383f00188c12834713c1f05aca6044f5e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:39 +0000
Subject: [PATCH 04/35] fix: bound the extrapolated transform-domain rate
 estimate

For very large distortions the linear extrapolation exceeded u32, so that
the accumulated rate wrapped around (a panic with overflow checks).
---
 src/rdo.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rdo.rs b/src/rdo.rs
index 3f6bfb4..ebae219 100644
--- a/src/rdo.rs
+++ b/src/rdo.rs
@@ -135,7 +135,10 @@ pub fn estimate_rate(qindex: u8, ts: TxSize, fast_distortion: u64) -> u64 {
   let y0 = RDO_RATE_TABLE[q_bin_idx][bs_index][bin_idx_down as usize] as i64;
   let y1 = RDO_RATE_TABLE[q_bin_idx][bs_index][bin_idx_up as usize] as i64;
   let slope = ((y1 - y0) << 8) / (x1 - x0);
-  (y0 + (((fast_distortion as i64 - x0) * slope) >> 8)).max(0) as u64
+  // Extrapolating beyond the table must not exceed what a transform block can
+  // possibly cost (1024 coefficients at less than 64 bits each).
+  (y0 + (((fast_distortion as i64 - x0) * slope) >> 8))
+    .clamp(0, (1024 * 64) << OD_BITRES) as u64
 }
 
 #[allow(unused)]
-- 
2.43.0


From 0a2ddab0039e054ae97c084344d6f9760690ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:29 +0000
Subject: [PATCH 05/35] fix: do not run high-bitdepth assembly on 8-bit video
 in 16-bit storage

A Context<u16> is accepted for 8-bit video, but the inverse transform picked
the 12-bit assembly for it, which clips to 12 bits: the reconstruction went
out of range and differed from what decoders produce.
---
 src/encoder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 86c8a64..a0336f5 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -932,7 +932,14 @@ impl<T: Pixel> FrameInvariants<T> {
       enable_early_exit: true,
       tx_mode_select: false,
       default_filter: FilterMode::REGULAR,
-      cpu_feature_level: Default::default(),
+      // The assembly for 16-bit storage requires more than 8 bits per sample.
+      cpu_feature_level: if config.bit_depth == 8
+        && matches!(T::type_enum(), PixelType::U16)
+      {
+        crate::cpu_features::CpuFeatureLevel::RUST
+      } else {
+        Default::default()
+      },
       enable_segmentation: config.speed_settings.segmentation
         != SegmentationLevel::Disabled,
       enable_inter_txfm_split: config
-- 
2.43.0


From cab1ecaadaad9bfb7e633b49792fa5a2124da1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:56 +0000
Subject: [PATCH 06/35] fix: keep the rate control target within the quantizer
 range

With min_quantizer 0 the target quantizer was not bounded below. When the
content cannot use up the bitrate, capping reservoir overflow lowered the
target further with every frame although the quantizer was already at its
minimum, until the fixed-point arithmetic overflowed (a panic with overflow
checks, arbitrary quantizers without).
---
 src/rate.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/rate.rs b/src/rate.rs
index 365e0a4..15fad6c 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1025,12 +1025,13 @@ impl RCState {
         log_base_q = cmp::min(log_base_q, max_log_base_q);
         log_q = cmp::min(log_q, max_log_q);
       }
-      if self.ac_qi_min > 0 {
-        let (min_log_base_q, min_log_q) =
-          Self::calc_flat_quantizer(self.ac_qi_min, ctx.config.bit_depth, fti);
-        log_base_q = cmp::max(log_base_q, min_log_base_q);
-        log_q = cmp::max(log_q, min_log_q);
-      }
+      // This also applies if ac_qi_min == 0: no quantizer index is finer than
+      //  that, and letting the target drift further away from what is actually
+      //  used would make the scale estimates run away until they overflow.
+      let (min_log_base_q, min_log_q) =
+        Self::calc_flat_quantizer(self.ac_qi_min, ctx.config.bit_depth, fti);
+      log_base_q = cmp::max(log_base_q, min_log_base_q);
+      log_q = cmp::max(log_q, min_log_q);
       QuantizerParameters::new_from_log_q(
         log_base_q,
         log_q,
-- 
2.43.0


From 5d280c84c57dbd0b369be17118552a0ca60283b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:12 +0000
Subject: [PATCH 07/35] fix: keep partitions at 8x8 or above for inter frames
 other than 4:2:0

A partition range whose maximum is 4x4 was accepted for every chroma format,
but inter frames cannot split below 8x8 unless the video is 4:2:0, so that
encoding hit an assertion.
---
 src/api/config/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index aef2c45..792f194 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -13,6 +13,7 @@ use rayon::{ThreadPool, ThreadPoolBuilder};
 use std::sync::Arc;
 
 use crate::api::{ChromaSampling, Context, ContextInner, PixelRange};
+use crate::partition::BlockSize;
 use crate::util::Pixel;
 
 mod encoder;
@@ -238,6 +239,14 @@ impl Config {
       config.speed_settings.transform.rdo_tx_decision = false;
     }
 
+    // FIXME: sub-8x8 inter blocks not supported for non-4:2:0 sampling
+    let partition_range = &mut config.speed_settings.partition.partition_range;
+    if chroma_sampling != ChromaSampling::Cs420
+      && partition_range.max < BlockSize::BLOCK_8X8
+    {
+      partition_range.max = BlockSize::BLOCK_8X8;
+    }
+
     let mut inner = ContextInner::new(&config);
 
     if let Some(ref s) = self.rate_control.summary {
-- 
2.43.0


From 1d04fa23f71b47f185b8021193dea8f9b2d20461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:33 +0000
Subject: [PATCH 08/35] fix: keep T.35 metadata for the packet that shows its
 frame

The metadata of a frame was dropped when the frame was first coded hidden,
when its slot turned out to be a placeholder, or when the next key frame was
pulled in, so it never reached the stream.
---
 src/api/internal.rs | 14 +++++++-------
 src/rate.rs         |  3 ++-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 153610c..4454045 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -538,12 +538,6 @@ impl<T: Pixel> ContextInner<T> {
       return Err(EncoderStatus::NeedMoreData);
     }
 
-    let t35_metadata = if let Some(t35) = self.t35_q.remove(&input_frameno) {
-      t35
-    } else {
-      Box::new([])
-    };
-
     if output_frameno_in_gop > 0 {
       let next_keyframe_input_frameno = self.next_keyframe_input_frameno(
         self.gop_input_frameno_start[&output_frameno],
@@ -579,7 +573,7 @@ impl<T: Pixel> ContextInner<T> {
             output_frameno_in_gop,
             next_keyframe_input_frameno,
             self.config.error_resilient,
-            t35_metadata,
+            Box::new([]),
           );
           assert!(fi.is_none());
           return Ok(fi);
@@ -607,6 +601,11 @@ impl<T: Pixel> ContextInner<T> {
         input_frameno;
     }
 
+    // A frame can be coded hidden first and shown later, the metadata goes with
+    // the latter, so keep it around until the frame is dropped from the queue.
+    let t35_metadata =
+      self.t35_q.get(&input_frameno).cloned().unwrap_or_default();
+
     let output_frameno_in_gop =
       output_frameno - self.gop_output_frameno_start[&output_frameno];
     if output_frameno_in_gop == 0 {
@@ -1568,6 +1567,7 @@ impl<T: Pixel> ContextInner<T> {
     let frame_q_start = self.frame_q.keys().next().cloned().unwrap_or(0);
     for i in frame_q_start..cur_input_frameno {
       self.frame_q.remove(&i);
+      self.t35_q.remove(&i);
     }
 
     if self.output_frameno < 2 {
diff --git a/src/rate.rs b/src/rate.rs
index 15fad6c..9df3086 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -1096,7 +1096,8 @@ impl RCState {
         droppable = false;
       }
       if fti == FRAME_SUBTYPE_SEF {
-        debug_assert!(bits == SEF_BITS);
+        // Metadata may accompany the frame header.
+        debug_assert!(bits >= SEF_BITS);
         debug_assert!(show_frame);
         // Please don't make trial encodes of a SEF.
         debug_assert!(!trial);
-- 
2.43.0


From e514397002bc2ad0b3de325bb56dd1e676cf229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:34 +0000
Subject: [PATCH 09/35] fix: make the av1C record agree with the sequence
 header

The level, the vertical subsampling flag of monochrome streams and the
chroma sample position were written as constants.
---
 src/api/channel/data.rs | 13 ++++++++++---
 src/api/context.rs      | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/api/channel/data.rs b/src/api/channel/data.rs
index 6b3f65c..9076db3 100644
--- a/src/api/channel/data.rs
+++ b/src/api/channel/data.rs
@@ -355,14 +355,21 @@ impl<T: Pixel> PacketReceiver<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
         bw.write_bit(false)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs400 | ChromaSampling::Cs420
+        ))?; // chroma_subsampling_y
+        bw.write::<2, u8>(if seq.chroma_sampling == ChromaSampling::Cs420 {
+          seq.chroma_sample_position as u8
+        } else {
+          0
+        })?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
diff --git a/src/api/context.rs b/src/api/context.rs
index 6aa6a8b..9c25f12 100644
--- a/src/api/context.rs
+++ b/src/api/context.rs
@@ -347,14 +347,21 @@ impl<T: Pixel> Context<T> {
         bw.write_bit(true)?; // marker
         bw.write::<7, u8>(1)?; // version
         bw.write::<3, u8>(seq.profile)?;
-        bw.write::<5, u8>(31)?; // level
+        bw.write::<5, u8>(seq.level_idx[0])?; // level
         bw.write_bit(false)?; // tier
         bw.write_bit(seq.bit_depth > 8)?; // high_bitdepth
         bw.write_bit(seq.bit_depth == 12)?; // twelve_bit
         bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs400)?; // monochrome
         bw.write_bit(seq.chroma_sampling != ChromaSampling::Cs444)?; // chroma_subsampling_x
-        bw.write_bit(seq.chroma_sampling == ChromaSampling::Cs420)?; // chroma_subsampling_y
-        bw.write::<2, u8>(0)?; // chroma_sample_position
+        bw.write_bit(matches!(
+          seq.chroma_sampling,
+          ChromaSampling::Cs400 | ChromaSampling::Cs420
+        ))?; // chroma_subsampling_y
+        bw.write::<2, u8>(if seq.chroma_sampling == ChromaSampling::Cs420 {
+          seq.chroma_sample_position as u8
+        } else {
+          0
+        })?; // chroma_sample_position
         bw.write::<3, u8>(0)?; // reserved
         bw.write_bit(false)?; // initial_presentation_delay_present
 
-- 
2.43.0


From 11e44f893fe7d90d720c15160d4bd750629d50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:06 +0000
Subject: [PATCH 10/35] fix: refuse AV1 levels below 2.0 in the C configuration
 parser

---
 src/capi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 44011d7..9a7b93b 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -732,7 +732,7 @@ unsafe fn option_match(
         _ => {
           let (major, minor) =
             scan_fmt!(value, "{}.{}", u8, u8).map_err(|_| ())?;
-          if major > 7 || minor > 3 {
+          if !(2..=7).contains(&major) || minor > 3 {
             return Err(());
           }
           Some(((major - 2) << 2) + minor)
-- 
2.43.0


From 5001405c300c33d45964c41b56f55e9b09a9b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:07 +0000
Subject: [PATCH 11/35] fix: refuse pass data buffers announcing an
 unrepresentable length

---
 src/capi.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/capi.rs b/src/capi.rs
index 9a7b93b..069d223 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -460,7 +460,12 @@ unsafe fn decode_slice<'a>(
 
   let buf = slice::from_raw_parts(*data, *len as usize);
   let (len_bytes, rest) = buf.split_at(std::mem::size_of::<u64>());
-  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap()) as usize;
+  let buf_len = u64::from_be_bytes(len_bytes.try_into().unwrap());
+  // The caller is told the full length as a c_int
+  if buf_len > c_int::MAX as u64 - 8 {
+    return (-1, None);
+  }
+  let buf_len = buf_len as usize;
   let full_len = buf_len + 8;
   if buf_len > rest.len() {
     return (full_len as c_int, None);
-- 
2.43.0


From d4af08c0f10526dc3fbaf0115144980a2f32b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:29 +0000
Subject: [PATCH 12/35] fix: keep frame parameters in the parallel GOP channel

---
 src/api/channel/by_gop.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 342c7c0..c0c5c2d 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -22,8 +22,10 @@ use av_scenechange::SceneChangeDetector;
 use std::collections::BTreeMap;
 use std::sync::Arc;
 
+type FrameWithParams<T> = (Arc<Frame<T>>, Option<FrameParameters>);
+
 struct SubGop<T: Pixel> {
-  frames: Vec<Arc<Frame<T>>>,
+  frames: Vec<FrameWithParams<T>>,
   end_gop: bool,
 }
 
@@ -78,10 +80,13 @@ impl<T: Pixel> SceneChange<T> {
 
   // Tell where to split the lookahead
   //
-  fn split(&mut self, lookahead: &[Arc<Frame<T>>]) -> Option<(usize, bool)> {
+  fn split(
+    &mut self, lookahead: &[FrameWithParams<T>],
+  ) -> Option<(usize, bool)> {
     self.processed += 1;
 
-    let lookahead_ref: Vec<_> = lookahead[self.frames..].iter().collect();
+    let lookahead_ref: Vec<_> =
+      lookahead[self.frames..].iter().map(|(frame, _)| frame).collect();
 
     let new_gop = self.detector.analyze_next_frame(
       &lookahead_ref,
@@ -172,7 +177,7 @@ fn workerpool<T: Pixel>(
           Some(wl) => {
             let mut inner = cfg.new_inner().unwrap();
             for s in wl.s_recv.iter() {
-              for f in s.frames {
+              for (frame, params) in s.frames {
                 while !inner.needs_more_fi_lookahead() {
                   let r = inner.receive_packet();
                   match r {
@@ -183,7 +188,7 @@ fn workerpool<T: Pixel>(
                     _ => todo!("Error management {:?}", r),
                   }
                 }
-                let _ = inner.send_frame(Some(f), None);
+                let _ = inner.send_frame(Some(frame), params);
               }
             }
 
@@ -270,9 +275,9 @@ impl Config {
     s.spawn_fifo(move |_| {
       let mut lookahead = Vec::new();
       for f in r.iter() {
-        let (frame, _params) = f;
+        let (frame, params) = f;
 
-        lookahead.push(frame.unwrap());
+        lookahead.push((frame.unwrap(), params));
 
         // we need at least lookahead_distance frames to reason
         if lookahead.len() < lookahead_distance {
-- 
2.43.0


From 2993624143a78a299841f092169e88a0efcbe517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:48 +0000
Subject: [PATCH 13/35] fix: disconnect the channels instead of aborting when a
 peer is gone or pass data is invalid

---
 src/api/channel/by_gop.rs |  7 +++++--
 src/api/channel/mod.rs    | 40 +++++++++++++++++++++++++++------------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index c0c5c2d..3970597 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -182,7 +182,8 @@ fn workerpool<T: Pixel>(
                   let r = inner.receive_packet();
                   match r {
                     Ok(p) => {
-                      wl.send.send(p).unwrap();
+                      // The receiver may be gone already
+                      let _ = wl.send.send(p);
                     }
                     Err(EncoderStatus::Encoded) => {}
                     _ => todo!("Error management {:?}", r),
@@ -197,7 +198,9 @@ fn workerpool<T: Pixel>(
 
             loop {
               match inner.receive_packet() {
-                Ok(p) => wl.send.send(p).unwrap(),
+                Ok(p) => {
+                  let _ = wl.send.send(p);
+                }
                 Err(EncoderStatus::LimitReached) => break,
                 Err(EncoderStatus::Encoded) => {}
                 _ => todo!("Error management"),
diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index d81ccb9..0ec7d17 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -189,7 +189,8 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_data(&mut self, rc_state: &mut RCState) {
     if let Some(data) = rc_state.emit_frame_data() {
       let data = data.to_vec().into_boxed_slice();
-      self.send(RcData::Frame(data)).unwrap();
+      // The receiver may be gone already
+      let _ = self.send(RcData::Frame(data));
     } else {
       unreachable!(
         "The encoder received more frames than its internal
@@ -200,7 +201,8 @@ impl RcFirstPass for Sender<RcData> {
   fn send_pass_summary(&mut self, rc_state: &mut RCState) {
     let data = rc_state.emit_summary();
     let data = data.to_vec().into_boxed_slice();
-    self.send(RcData::Summary(data)).unwrap();
+    // The receiver may be gone already
+    let _ = self.send(RcData::Summary(data));
   }
 }
 
@@ -228,9 +230,10 @@ impl RcSecondPass for Receiver<RcData> {
         inner
           .rc_state
           .parse_frame_data_packet(data.as_ref())
-          .unwrap_or_else(|_| todo!("Error reporting"));
+          .map_err(|_| log::error!("Invalid pass data"))?;
       } else {
-        todo!("Error reporting");
+        log::error!("Missing pass data");
+        return Err(());
       }
     }
 
@@ -308,19 +311,26 @@ impl Config {
       for f in receive_frame.iter() {
         // info!("frame in {}", inner.frame_count);
         while !inner.needs_more_fi_lookahead() {
-          receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
+          // There is no way to report errors, stop and disconnect the channels
+          if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+            return;
+          }
           // needs_more_fi_lookahead() should guard for missing output_frameno
           // already.
           //
           // this call should return either Ok or Err(Encoded)
           let has_pass_data = match inner.receive_packet() {
             Ok(p) => {
-              send_packet.send(p).unwrap();
+              if send_packet.send(p).is_err() {
+                return;
+              }
               true
             }
             Err(EncoderStatus::Encoded) => true,
-            Err(EncoderStatus::NotReady) => todo!("Error reporting"),
-            _ => unreachable!(),
+            Err(status) => {
+              log::error!("Unexpected encoder status {status:?}");
+              return;
+            }
           };
           if has_pass_data {
             send_rc_pass1.send_pass_data(&mut inner.rc_state);
@@ -335,18 +345,24 @@ impl Config {
       let _ = inner.send_frame(None, None);
 
       loop {
-        receive_rc_pass2.feed_pass_data(&mut inner).unwrap();
+        if receive_rc_pass2.feed_pass_data(&mut inner).is_err() {
+          return;
+        }
         let r = inner.receive_packet();
         let has_pass_data = match r {
           Ok(p) => {
             // warn!("Sending out {}", p.input_frameno);
-            send_packet.send(p).unwrap();
+            if send_packet.send(p).is_err() {
+              return;
+            }
             true
           }
           Err(EncoderStatus::LimitReached) => break,
           Err(EncoderStatus::Encoded) => true,
-          Err(EncoderStatus::NotReady) => todo!("Error reporting"),
-          _ => unreachable!(),
+          Err(status) => {
+            log::error!("Unexpected encoder status {status:?}");
+            return;
+          }
         };
 
         if has_pass_data {
-- 
2.43.0


From 2e0447726407eb6591738d15d3ef8d467a1e313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:49 +0000
Subject: [PATCH 14/35] fix: let the second pass channel encode a single frame

---
 src/api/channel/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index 0ec7d17..b6cd296 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -327,6 +327,8 @@ impl Config {
               true
             }
             Err(EncoderStatus::Encoded) => true,
+            // A single frame is expected and it was not sent yet.
+            Err(EncoderStatus::NeedMoreData) => break,
             Err(status) => {
               log::error!("Unexpected encoder status {status:?}");
               return;
-- 
2.43.0


From 6446583d5a5ba22c35b8b5308cf4c348f12d5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:32 +0000
Subject: [PATCH 15/35] fix: keep the parallel GOP accounting threads out of
 the encoder thread pool

---
 src/api/channel/by_gop.rs | 65 ++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 3970597..9162ffc 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -9,6 +9,7 @@
 
 use crate::api::channel::data::*;
 use crate::api::config::*;
+use crate::api::internal::ContextInner;
 use crate::api::util::*;
 use crate::api::EncoderConfig;
 use crate::api::InterConfig;
@@ -18,6 +19,7 @@ use crossbeam::channel::*;
 use crate::frame::*;
 use crate::util::Pixel;
 use av_scenechange::SceneChangeDetector;
+use rayon::ThreadPool;
 
 use std::collections::BTreeMap;
 use std::sync::Arc;
@@ -157,7 +159,7 @@ impl<T: Pixel> WorkerPoolRecv<T> {
 }
 
 fn workerpool<T: Pixel>(
-  s: &rayon::ScopeFifo, workers: usize, mut cfg: Config,
+  pool: Option<Arc<ThreadPool>>, workers: usize, mut cfg: Config,
 ) -> (WorkerPoolSend<T>, WorkerPoolRecv<T>) {
   let (send_workers, recv_workers) = bounded(workers);
   let (send_reassemble, recv_reassemble) = unbounded();
@@ -171,7 +173,19 @@ fn workerpool<T: Pixel>(
     let send_back = send_workers.clone();
 
     let cfg = cfg.clone();
-    s.spawn_fifo(move |_| {
+    let pool = pool.clone();
+    std::thread::spawn(move || {
+      // Only the encoding itself runs in the thread pool
+      let receive_packet = |inner: &mut ContextInner<T>| match &pool {
+        Some(pool) => pool.install(|| inner.receive_packet()),
+        None => inner.receive_packet(),
+      };
+      let send_frame = |inner: &mut ContextInner<T>, frame, params| match &pool
+      {
+        Some(pool) => pool.install(|| inner.send_frame(frame, params)),
+        None => inner.send_frame(frame, params),
+      };
+
       for wl in recv_workload.iter() {
         match wl {
           Some(wl) => {
@@ -179,7 +193,7 @@ fn workerpool<T: Pixel>(
             for s in wl.s_recv.iter() {
               for (frame, params) in s.frames {
                 while !inner.needs_more_fi_lookahead() {
-                  let r = inner.receive_packet();
+                  let r = receive_packet(&mut inner);
                   match r {
                     Ok(p) => {
                       // The receiver may be gone already
@@ -189,15 +203,15 @@ fn workerpool<T: Pixel>(
                     _ => todo!("Error management {:?}", r),
                   }
                 }
-                let _ = inner.send_frame(Some(frame), params);
+                let _ = send_frame(&mut inner, Some(frame), params);
               }
             }
 
             inner.limit = Some(inner.frame_count);
-            let _ = inner.send_frame(None, None);
+            let _ = send_frame(&mut inner, None, None);
 
             loop {
-              match inner.receive_packet() {
+              match receive_packet(&mut inner) {
                 Ok(p) => {
                   let _ = wl.send.send(p);
                 }
@@ -227,10 +241,9 @@ fn workerpool<T: Pixel>(
 }
 
 fn reassemble<P: Pixel>(
-  pool: WorkerPoolRecv<P>, s: &rayon::ScopeFifo,
-  send_packet: Sender<Packet<P>>,
+  pool: WorkerPoolRecv<P>, send_packet: Sender<Packet<P>>,
 ) {
-  s.spawn_fifo(move |_| {
+  std::thread::spawn(move || {
     let mut pending = BTreeMap::new();
     let mut last_idx = 0;
     let mut packet_index = 0;
@@ -266,7 +279,7 @@ fn reassemble<P: Pixel>(
 impl Config {
   // Group the incoming frames in Gops, emit a SubGop at time.
   fn scenechange<T: Pixel>(
-    &self, s: &rayon::ScopeFifo, r: Receiver<FrameInput<T>>,
+    &self, r: Receiver<FrameInput<T>>,
   ) -> Receiver<SubGop<T>> {
     let inter_cfg = InterConfig::new(&self.enc);
     let pyramid_size = inter_cfg.keyframe_lookahead_distance() as usize;
@@ -275,7 +288,7 @@ impl Config {
 
     let mut sc = SceneChange::new(pyramid_size, &self.enc);
 
-    s.spawn_fifo(move |_| {
+    std::thread::spawn(move || {
       let mut lookahead = Vec::new();
       for f in r.iter() {
         let (frame, params) = f;
@@ -314,12 +327,12 @@ impl Config {
 
   /// Encode the subgops, dispatch each Gop to an available worker
   fn encode<T: Pixel>(
-    &self, s: &rayon::ScopeFifo, workers: usize, r: Receiver<SubGop<T>>,
-    send_packet: Sender<Packet<T>>,
+    &self, pool: Option<Arc<ThreadPool>>, workers: usize,
+    r: Receiver<SubGop<T>>, send_packet: Sender<Packet<T>>,
   ) {
-    let (mut workers, recv) = workerpool(s, workers, self.clone());
+    let (mut workers, recv) = workerpool(pool, workers, self.clone());
 
-    s.spawn_fifo(move |_| {
+    std::thread::spawn(move || {
       let mut sg_send = workers.get_worker().unwrap();
       for sb in r.iter() {
         let end_gop = sb.end_gop;
@@ -331,7 +344,7 @@ impl Config {
       }
     });
 
-    reassemble(recv, s, send_packet)
+    reassemble(recv, send_packet)
   }
 
   /// Create a single pass by-gop encoder channel
@@ -359,23 +372,11 @@ impl Config {
     let (send_frame, receive_frame) = bounded(input_len);
     let (send_packet, receive_packet) = unbounded();
 
-    let cfg = self.clone();
-
+    // The accounting threads block on the channels: they must not occupy the
+    // threads the encoding needs to progress.
     let pool = self.new_thread_pool();
-
-    // TODO: move the accounting threads outside the threadpool
-    let run = move || {
-      let _ = rayon::scope_fifo(|s| {
-        let sg_recv = cfg.scenechange(s, receive_frame);
-        cfg.encode(s, slots, sg_recv, send_packet);
-      });
-    };
-
-    if let Some(pool) = pool {
-      pool.spawn_fifo(run);
-    } else {
-      rayon::spawn_fifo(run);
-    }
+    let sg_recv = self.scenechange(receive_frame);
+    self.encode(pool, slots, sg_recv, send_packet);
 
     let channel = (
       FrameSender::new(frame_limit, send_frame, Arc::new(self.enc.clone())),
-- 
2.43.0


From 173130c1d15c3971bd3d380fd6b009606bb036ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:27 +0000
Subject: [PATCH 16/35] fix: correct the maximum picture size of level 4.1

AV1 Annex A gives 2359296 for levels 4.0 and 4.1; a digit too many made the
validation accept pictures ten times as large.
---
 src/levels.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/levels.rs b/src/levels.rs
index 63fbff0..227feb1 100644
--- a/src/levels.rs
+++ b/src/levels.rs
@@ -31,8 +31,8 @@ pub static AV1_LEVEL_MAX_PIC_SIZE: [usize; 32] = [
   278784, // 2.1
   0, 0, 665856,  // 3.0
   1065024, // 3.1
-  0, 0, 2359296,  // 4.0
-  23592960, // 4.1
+  0, 0, 2359296, // 4.0
+  2359296, // 4.1
   0, 0, 8912896,  // 5.0
   8912896,  // 5.1
   8912896,  // 5.2
-- 
2.43.0


From 777c68cfdf01ff6ed4a548b8faf0a31d5ff5e72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:27 +0000
Subject: [PATCH 17/35] fix: check the display rate of a level against frames
 per second

time_base is the duration of a frame, so the rate is den/num; the inverse was
compared with the limit of the requested level.
---
 src/api/config/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/config/mod.rs b/src/api/config/mod.rs
index 792f194..c1beee5 100644
--- a/src/api/config/mod.rs
+++ b/src/api/config/mod.rs
@@ -431,8 +431,8 @@ impl Config {
         if config.height > AV1_LEVEL_MAX_V_SIZE[level_idx as usize] {
           return Err(LevelConstraintsExceeded);
         }
-        if ((config.width * config.height) as u64 * config.time_base.num)
-          .div_ceil(config.time_base.den)
+        if ((config.width * config.height) as u64 * config.time_base.den)
+          .div_ceil(config.time_base.num)
           > AV1_LEVEL_MAX_DISPLAY_RATE[level_idx as usize] as u64
         {
           return Err(LevelConstraintsExceeded);
-- 
2.43.0


From 0e69ae54eb26f547a9b99bea3d5f681686c294f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:28 +0000
Subject: [PATCH 18/35] fix: do not panic when the tile rate limit exceeds the
 possible tile rows

clamp() panics when its minimum is above its maximum, which happens for small
pictures with a very high frame rate.
---
 src/tiling/tiler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index 9d6b28a..a38b7d8 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -126,7 +126,8 @@ impl TilingInfo {
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
     let tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
-      .clamp(min_tile_rows_ratelimit_log2, max_tile_rows_log2);
+      .max(min_tile_rows_ratelimit_log2)
+      .min(max_tile_rows_log2);
     let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
-- 
2.43.0


From 671c50474a661dcaa3a88c0f51bf3c9d4f5e83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 19/35] fix: reach the finest tile layout when it is needed for
 the requested tiles

The loop that refines the layout ended before the finest layout was computed,
so that e.g. 128x128 with tiles=4 was coded with two tiles only.
---
 src/encoder.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index a0336f5..b6fd110 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -248,9 +248,7 @@ impl Sequence {
     if config.tiles > 0 {
       let mut tile_rows_log2 = 0;
       let mut tile_cols_log2 = 0;
-      while (tile_rows_log2 < tiling.max_tile_rows_log2)
-        || (tile_cols_log2 < tiling.max_tile_cols_log2)
-      {
+      loop {
         tiling = TilingInfo::from_target_tiles(
           sb_size_log2,
           config.width,
@@ -261,7 +259,10 @@ impl Sequence {
           config.chroma_sampling == ChromaSampling::Cs422,
         );
 
-        if tiling.rows * tiling.cols >= config.tiles {
+        if tiling.rows * tiling.cols >= config.tiles
+          || (tile_rows_log2 >= tiling.max_tile_rows_log2
+            && tile_cols_log2 >= tiling.max_tile_cols_log2)
+        {
           break;
         };
 
-- 
2.43.0


From 0614c7ad50598d97a8aaaca16237149d4f199ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:09 +0000
Subject: [PATCH 20/35] fix: respect the tile height limit of large 4:2:2
 pictures

Tile widths rounded for 4:2:2 are coded with explicit sizes, for which AV1
limits the tile area more strictly; the layout could not be written.
---
 src/tiling/tiler.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/tiling/tiler.rs b/src/tiling/tiler.rs
index a38b7d8..857feae 100644
--- a/src/tiling/tiler.rs
+++ b/src/tiling/tiler.rs
@@ -124,11 +124,44 @@ impl TilingInfo {
     let min_tile_rows_log2 = min_tiles_log2.saturating_sub(tile_cols_log2);
     let min_tile_rows_ratelimit_log2 =
       min_tiles_ratelimit_log2.saturating_sub(tile_cols_log2);
-    let tile_rows_log2 = tile_rows_log2
+    let mut tile_rows_log2 = tile_rows_log2
       .max(min_tile_rows_log2)
       .max(min_tile_rows_ratelimit_log2)
       .min(max_tile_rows_log2);
-    let tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+    let mut tile_height_sb =
+      sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+
+    // A rounded tile width is coded without the uniform spacing syntax, and
+    // the tile height is then limited by the area of the widest tile.
+    if tile_width_sb != sb_cols.align_power_of_two_and_shift(tile_cols_log2) {
+      let max_tile_area_sb = if min_tiles_log2 > 0 {
+        (sb_cols * sb_rows) >> (min_tiles_log2 + 1)
+      } else {
+        sb_cols * sb_rows
+      };
+      let max_tile_height_sb =
+        (max_tile_area_sb / tile_width_sb.min(sb_cols)).max(1);
+      while tile_height_sb > max_tile_height_sb
+        && tile_rows_log2 < max_tile_rows_log2
+      {
+        tile_rows_log2 += 1;
+        tile_height_sb = sb_rows.align_power_of_two_and_shift(tile_rows_log2);
+      }
+      if tile_height_sb > max_tile_height_sb
+        && tile_cols_log2 < max_tile_cols_log2
+      {
+        // No number of rows is enough, use narrower tiles.
+        return Self::from_target_tiles(
+          sb_size_log2,
+          frame_width,
+          frame_height,
+          frame_rate,
+          tile_cols_log2 + 1,
+          tile_rows_log2,
+          is_422_p,
+        );
+      }
+    }
 
     let rows = frame_height_sb.div_ceil(tile_height_sb);
 
-- 
2.43.0


From a30b07847d9c3c1d1dafbe45e615668abca4c088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:01 +0000
Subject: [PATCH 21/35] fix: let the progress report cope with any frame limit

An encode of no frames with a frame limit ended in a division by zero in
the final report, and a very large limit in a failed allocation.
---
 src/bin/stats.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index 7a592cb..3559659 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -99,7 +99,7 @@ impl ProgressInfo {
       frame_rate,
       total_frames,
       time_started: Instant::now(),
-      frame_info: Vec::with_capacity(total_frames.unwrap_or_default()),
+      frame_info: Vec::new(),
       encoded_size: 0,
       metrics_enabled,
     }
@@ -135,7 +135,12 @@ impl ProgressInfo {
   pub fn estimated_size(&self) -> usize {
     self
       .total_frames
-      .map(|frames| self.encoded_size * frames / self.frames_encoded())
+      .and_then(|frames| {
+        self
+          .encoded_size
+          .saturating_mul(frames)
+          .checked_div(self.frames_encoded())
+      })
       .unwrap_or_default()
   }
 
-- 
2.43.0


From 2bc2aac2ccbc599a019a6d8e2d2b04f9fc8cc4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:02 +0000
Subject: [PATCH 22/35] fix: report errors of the input video instead of ending
 the encode

Any failure to read a frame was taken for the end of the input, so a
damaged file gave a shortened video and a successful exit.
---
 src/bin/rav1e-ch.rs | 17 ++++++++++-------
 src/bin/rav1e.rs    |  9 +++++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index 00eb393..40bf116 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -24,7 +24,7 @@ use crate::stats::*;
 use rav1e::config::CpuFeatureLevel;
 use rav1e::prelude::*;
 
-use crate::decoder::{Decoder, FrameBuilder, VideoDetails};
+use crate::decoder::{DecodeError, Decoder, FrameBuilder, VideoDetails};
 use crate::muxer::*;
 use std::fs::File;
 use std::io::{Read, Seek, Write};
@@ -72,24 +72,27 @@ impl<D: Decoder> Source<D> {
 
   fn read_frame<T: Pixel>(
     &mut self, send_frame: &mut FrameSender<T>, video_info: VideoDetails,
-  ) -> bool {
+  ) -> Result<bool, CliError> {
     if self.limit != 0 && self.count == self.limit {
-      return false;
+      return Ok(false);
     }
 
     #[cfg(all(unix, feature = "signal-hook"))]
     {
       if self.exit_requested.load(std::sync::atomic::Ordering::SeqCst) {
-        return false;
+        return Ok(false);
       }
     }
     match self.input.read_frame(send_frame, &video_info) {
       Ok(frame) => {
         self.count += 1;
         let _ = send_frame.send(frame);
-        true
+        Ok(true)
+      }
+      Err(DecodeError::EOF) => Ok(false),
+      Err(e) => {
+        Err(CliError::new(&format!("Could not read the input video: {e:?}")))
       }
-      _ => false,
     }
   }
 }
@@ -185,7 +188,7 @@ fn do_encode<T: Pixel, D: Decoder>(
 
     // Send frames
     let send_frames = s.spawn(move |_| -> Result<(), CliError> {
-      while source.read_frame(&mut send_frame, y4m_details) {}
+      while source.read_frame(&mut send_frame, y4m_details)? {}
 
       // send_frame.result()
       Ok(())
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index bf1e970..163dd22 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -24,7 +24,7 @@ use crate::stats::*;
 use rav1e::config::CpuFeatureLevel;
 use rav1e::prelude::*;
 
-use crate::decoder::{Decoder, FrameBuilder, VideoDetails};
+use crate::decoder::{DecodeError, Decoder, FrameBuilder, VideoDetails};
 use crate::muxer::*;
 use std::fs::File;
 use std::io::{Read, Seek, Write};
@@ -99,9 +99,14 @@ impl<D: Decoder> Source<D> {
         self.count += 1;
         let _ = ctx.send_frame(Some(Arc::new(frame)));
       }
-      _ => {
+      Err(DecodeError::EOF) => {
         ctx.flush();
       }
+      Err(e) => {
+        return Err(CliError::new(&format!(
+          "Could not read the input video: {e:?}"
+        )))
+      }
     };
     Ok(())
   }
-- 
2.43.0


From 8086b0725c8a8e7700458462d92520d5057a699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:53 +0000
Subject: [PATCH 23/35] fix: report a failure to write the end of the output

Standard output is buffered: with --quiet it was only flushed on exit,
where errors are ignored.
---
 src/bin/rav1e.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 163dd22..a236dfd 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -268,6 +268,7 @@ fn do_encode<T: Pixel, D: Decoder>(
       output.flush().unwrap();
     }
   }
+  output.flush().map_err(|e| e.context("Unable to write the output"))?;
   if verbose != Verboseness::Quiet {
     if verbose == Verboseness::Verbose {
       // Clear out the temporary progress indicator
-- 
2.43.0


From a9bb5bf01bdc968c304dff74ea4f703aba7cd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:14 +0000
Subject: [PATCH 24/35] fix: do not trust lengths in the two-pass data file

A damaged length ended the process in a failed allocation instead of an
error.
---
 src/bin/common.rs   | 16 ++++++++++++++++
 src/bin/rav1e-ch.rs | 29 ++++-------------------------
 src/bin/rav1e.rs    | 17 ++---------------
 3 files changed, 22 insertions(+), 40 deletions(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index 7fa0ed4..ff20ae3 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -327,6 +327,22 @@ pub enum Commands {
   },
 }
 
+/// Reads a block of the two-pass data file: its length and its data.
+pub fn read_pass_data<R: Read>(passfile: &mut R) -> io::Result<Vec<u8>> {
+  let mut buflen = [0u8; 8];
+  passfile.read_exact(&mut buflen)?;
+  let len = u64::from_be_bytes(buflen);
+
+  // Do not trust the length: a corrupted one must not exhaust the memory.
+  let mut data = Vec::new();
+  passfile.take(len).read_to_end(&mut data)?;
+  if data.len() as u64 != len {
+    return Err(io::ErrorKind::UnexpectedEof.into());
+  }
+
+  Ok(data)
+}
+
 pub struct EncoderIO {
   pub input: Box<dyn Read + Send>,
   pub output: Box<dyn Muxer + Send>,
diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index 40bf116..e5730c0 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -197,32 +197,17 @@ fn do_encode<T: Pixel, D: Decoder>(
     // Send pass data
     let send_pass_data = s.spawn(move |_| -> Result<(), CliError> {
       if let (Some(mut passfile), Some(mut send_rc)) = (pass2file, send_rc) {
-        let mut buflen = [0u8; 8];
-
-        passfile
-          .read_exact(&mut buflen)
-          .map_err(|e| e.context("Unable to read the two-pass data file."))?;
-
-        let mut data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-        passfile
-          .read_exact(&mut data)
+        let mut data = read_pass_data(&mut passfile)
           .map_err(|e| e.context("Unable to read the two-pass data file."))?;
 
         while send_rc.send(RcData::Frame(data.into_boxed_slice())).is_ok() {
-          passfile.read_exact(&mut buflen).map_err(|e| {
+          data = read_pass_data(&mut passfile).map_err(|e| {
             e.context("Unable to read the two-pass data file.")
           })?;
 
-          if u64::from_be_bytes(buflen) == 0 {
+          if data.is_empty() {
             break;
           }
-
-          data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-          passfile.read_exact(&mut data).map_err(|e| {
-            e.context("Unable to read the two-pass data file.")
-          })?;
         }
       }
 
@@ -472,13 +457,7 @@ fn run() -> Result<(), error::CliError> {
       let mut f = File::open(f).map_err(|e| {
         e.context("Unable to open file for reading two-pass data")
       })?;
-      let mut buflen = [0u8; 8];
-      f.read_exact(&mut buflen)
-        .map_err(|e| e.context("Summary data too short"))?;
-      let len = i64::from_be_bytes(buflen);
-      let mut buf = vec![0u8; len as usize];
-
-      f.read_exact(&mut buf)
+      let buf = read_pass_data(&mut f)
         .map_err(|e| e.context("Summary data too short"))?;
 
       rc = RateControlConfig::from_summary_slice(&buf)
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index a236dfd..80b8409 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -129,14 +129,7 @@ fn process_frame<T: Pixel, D: Decoder>(
   // Submit first pass data to pass 2.
   if let Some(passfile) = pass2file.as_mut() {
     while ctx.rc_second_pass_data_required() > 0 {
-      let mut buflen = [0u8; 8];
-      passfile
-        .read_exact(&mut buflen)
-        .map_err(|e| e.context("Unable to read the two-pass data file."))?;
-      let mut data = vec![0u8; u64::from_be_bytes(buflen) as usize];
-
-      passfile
-        .read_exact(&mut data)
+      let data = read_pass_data(passfile)
         .map_err(|e| e.context("Unable to read the two-pass data file."))?;
 
       ctx
@@ -460,13 +453,7 @@ fn run() -> Result<(), error::CliError> {
       let mut f = File::open(f).map_err(|e| {
         e.context("Unable to open file for reading two-pass data")
       })?;
-      let mut buflen = [0u8; 8];
-      f.read_exact(&mut buflen)
-        .map_err(|e| e.context("Summary data too short"))?;
-      let len = i64::from_be_bytes(buflen);
-      let mut buf = vec![0u8; len as usize];
-
-      f.read_exact(&mut buf)
+      let buf = read_pass_data(&mut f)
         .map_err(|e| e.context("Summary data too short"))?;
 
       rc = RateControlConfig::from_summary_slice(&buf)
-- 
2.43.0


From ee10f41f6b7c274df8356cdac034eb9a1230f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:16 +0000
Subject: [PATCH 25/35] fix: refuse more than one still picture frame through a
 channel

As the direct interface does: the second frame ended the process in a
failed assertion.
---
 src/api/channel/by_gop.rs | 3 ++-
 src/api/channel/mod.rs    | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/channel/by_gop.rs b/src/api/channel/by_gop.rs
index 9162ffc..a0e442a 100644
--- a/src/api/channel/by_gop.rs
+++ b/src/api/channel/by_gop.rs
@@ -367,7 +367,8 @@ impl Config {
 
     // TODO: make it user-settable
     let input_len = self.enc.speed_settings.rdo_lookahead_frames as usize * 4;
-    let frame_limit = i32::MAX as u64;
+    // A still picture is a single frame
+    let frame_limit = if self.enc.still_picture { 1 } else { i32::MAX as u64 };
 
     let (send_frame, receive_frame) = bounded(input_len);
     let (send_packet, receive_packet) = unbounded();
diff --git a/src/api/channel/mod.rs b/src/api/channel/mod.rs
index b6cd296..8b50030 100644
--- a/src/api/channel/mod.rs
+++ b/src/api/channel/mod.rs
@@ -298,6 +298,10 @@ impl Config {
       (None, None, i32::MAX as u64)
     };
 
+    // A still picture is a single frame
+    let frame_limit =
+      if self.enc.still_picture { frame_limit.min(1) } else { frame_limit };
+
     let config = Arc::new(self.enc.clone());
 
     let channel = (
-- 
2.43.0


From 4cac423c401babc87a69d7e8898532b8645c9dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:31 +0000
Subject: [PATCH 26/35] fix: compute metrics of 8-bit content in the high bit
 depth path

With --high-bitdepth, --psnr and --metrics ended the encode in a panic.
---
 src/bin/stats.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/bin/stats.rs b/src/bin/stats.rs
index 3559659..49cf316 100644
--- a/src/bin/stats.rs
+++ b/src/bin/stats.rs
@@ -744,10 +744,50 @@ pub enum MetricsEnabled {
   All,
 }
 
+/// Copies a frame to the 8-bit storage the metrics expect for 8-bit content.
+fn narrow_frame<T: Pixel>(frame: &Frame<T>) -> Frame<u8> {
+  let narrow_plane = |plane: &Plane<T>| {
+    let cfg = &plane.cfg;
+    let mut narrow =
+      Plane::new(cfg.width, cfg.height, cfg.xdec, cfg.ydec, 0, 0);
+    let stride = narrow.cfg.stride.max(1);
+    for (src, dst) in
+      plane.rows_iter().zip(narrow.data_origin_mut().chunks_mut(stride))
+    {
+      for (s, d) in src.iter().zip(dst) {
+        *d = u8::cast_from(*s);
+      }
+    }
+    narrow
+  };
+
+  Frame {
+    planes: [
+      narrow_plane(&frame.planes[0]),
+      narrow_plane(&frame.planes[1]),
+      narrow_plane(&frame.planes[2]),
+    ],
+  }
+}
+
 pub fn calculate_frame_metrics<T: Pixel>(
   frame1: &Frame<T>, frame2: &Frame<T>, bit_depth: usize, cs: ChromaSampling,
   metrics: MetricsEnabled,
 ) -> QualityMetrics {
+  // 8-bit content in the high bit depth code path
+  if metrics != MetricsEnabled::None
+    && bit_depth == 8
+    && std::mem::size_of::<T>() > 1
+  {
+    return calculate_frame_metrics(
+      &narrow_frame(frame1),
+      &narrow_frame(frame2),
+      bit_depth,
+      cs,
+      metrics,
+    );
+  }
+
   match metrics {
     MetricsEnabled::None => QualityMetrics::default(),
     MetricsEnabled::Psnr => QualityMetrics {
-- 
2.43.0


From 2102a92544264f14004621037b104086507fa0d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:51:53 +0000
Subject: [PATCH 27/35] fix: refuse implausible pass data and keep rate control
 within range on it

---
 src/api/config/rate.rs |  4 ++-
 src/rate.rs            | 64 ++++++++++++++++++++++++++++++------------
 2 files changed, 49 insertions(+), 19 deletions(-)

diff --git a/src/api/config/rate.rs b/src/api/config/rate.rs
index 7dee501..a72f17c 100644
--- a/src/api/config/rate.rs
+++ b/src/api/config/rate.rs
@@ -35,7 +35,9 @@ impl RateControlSummary {
   /// Deserializes a byte slice into a `RateControlSummary`
   pub(crate) fn from_slice(bytes: &[u8]) -> Result<Self, Error> {
     let mut de = RCDeserialize::default();
-    let _ = de.buffer_fill(bytes, 0, TWOPASS_HEADER_SZ);
+    if de.buffer_fill(bytes, 0, TWOPASS_HEADER_SZ) < TWOPASS_HEADER_SZ {
+      return Err(Error::CorruptedSummary("Truncated summary".to_string()));
+    }
 
     de.parse_summary().map_err(Error::CorruptedSummary)
   }
diff --git a/src/rate.rs b/src/rate.rs
index 9df3086..420004e 100644
--- a/src/rate.rs
+++ b/src/rate.rs
@@ -306,6 +306,10 @@ impl RCDeserialize {
       return Err("Invalid frame type".to_string());
     }
     let log_scale_q24 = self.unbuffer_val(4) as i32;
+    // No frame is that simple or that complex.
+    if !(q57_to_q24(q57(-64))..=q57_to_q24(q57(16))).contains(&log_scale_q24) {
+      return Err("Invalid frame scale".to_string());
+    }
     Ok(RCFrameMetrics { log_scale_q24, fti, show_frame })
   }
 
@@ -349,13 +353,20 @@ impl RCDeserialize {
 
     for exp in s.exp.iter_mut() {
       *exp = self.unbuffer_val(1) as u8;
+      // The exponents are Q6, and the ones in use are all close to 1.
+      if !(16..=192).contains(exp) {
+        return Err("Invalid exponent".to_string());
+      }
     }
 
-    for scale_sum in s.scale_sum.iter_mut() {
+    for (scale_sum, &n) in s.scale_sum.iter_mut().zip(s.nframes.iter()) {
       *scale_sum = self.unbuffer_val(8);
       if *scale_sum < 0 {
         return Err("Got negative scale sum".to_string());
       }
+      if *scale_sum > bexp_q24(i32::MAX).saturating_mul(n as i64) {
+        return Err("Scale sum too large".to_string());
+      }
     }
     Ok(s)
   }
@@ -507,6 +518,14 @@ const Q57_SQUARE_EXP_SCALE: f64 =
 
 // Daala style log-offset for chroma quantizers
 // TODO: Optimal offsets for more configurations than just BT.709
+// Undo the scaling of a log quantizer by a rate model exponent (Q6).
+// The result is limited to what the Q57 computations can handle; this is far
+//  beyond any quantizer that exists.
+fn log_q_from_exp(log_q_exp: i64, exp: i64) -> i64 {
+  let max = q57(15) >> 6;
+  ((log_q_exp + (exp >> 1)) / exp).clamp(-max, max) << 6
+}
+
 fn chroma_offset(
   log_target_q: i64, chroma_sampling: ChromaSampling,
 ) -> (i64, i64) {
@@ -863,9 +882,12 @@ impl RCState {
           //  frames of each type we need to add compared to the actual sums in
           //  our window.
           for ftj in 0..FRAME_NSUBTYPES {
-            let scale = scale_window_sum[ftj]
-              + bexp_q24(self.scalefilter[ftj].y[0])
-                * (nframes[ftj] - scale_window_nframes[ftj]) as i64;
+            // The frame counts come from the pass data and may be anything.
+            let scale = scale_window_sum[ftj].saturating_add(
+              bexp_q24(self.scalefilter[ftj].y[0]).saturating_mul(
+                nframes[ftj] as i64 - scale_window_nframes[ftj] as i64,
+              ),
+            );
             log_scale[ftj] = if nframes[ftj] > 0 {
               blog64(scale) - blog64(nframes[ftj] as i64) - q57(24)
             } else {
@@ -929,15 +951,16 @@ impl RCState {
             + DQP_Q57[ftj];
           // All the fields here are Q57 except for the exponent, which is
           //  Q6.
-          bits += (nframes[ftj] as i64)
-            * bexp64(
-              log_scale[ftj] + self.log_npixels
-                - ((log_q + 32) >> 6) * (self.exp[ftj] as i64),
-            );
+          bits = bits.saturating_add((nframes[ftj] as i64).saturating_mul(
+            bexp64((log_scale[ftj] + self.log_npixels).saturating_sub(
+              ((log_q + 32) >> 6) * (self.exp[ftj] as i64),
+            )),
+          ));
         }
         // The number of bits for Show Existing Frame frames is constant.
-        bits += (nframes[FRAME_SUBTYPE_SEF] as i64) * SEF_BITS;
-        let diff = bits - rate_total;
+        bits = bits
+          .saturating_add((nframes[FRAME_SUBTYPE_SEF] as i64) * SEF_BITS);
+        let diff = bits.saturating_sub(rate_total);
         if diff > 0 {
           log_qlo = log_base_q + 1;
         } else if diff < 0 {
@@ -984,12 +1007,14 @@ impl RCState {
           let log_scale_pixels = log_cur_scale + self.log_npixels;
           let exp = self.exp[fti] as i64;
           let mut log_q_exp = ((log_q + 32) >> 6) * exp;
-          if log_scale_pixels - log_q_exp < log_soft_limit {
+          if log_scale_pixels.saturating_sub(log_q_exp) < log_soft_limit {
             // Scale the adjustment based on how far into the margin we are.
-            log_q_exp += ((log_scale_pixels - log_soft_limit - log_q_exp)
+            log_q_exp += (log_scale_pixels
+              .saturating_sub(log_soft_limit)
+              .saturating_sub(log_q_exp)
               >> 32)
               * ((margin.min(soft_limit) << 32) / margin);
-            log_q = ((log_q_exp + (exp >> 1)) / exp) << 6;
+            log_q = log_q_from_exp(log_q_exp, exp);
           }
         }
       }
@@ -1011,10 +1036,10 @@ impl RCState {
         let log_scale_pixels = log_cur_scale + self.log_npixels;
         let exp = self.exp[fti] as i64;
         let mut log_q_exp = ((log_q + 32) >> 6) * exp;
-        if log_scale_pixels - log_q_exp > log_hard_limit {
+        if log_scale_pixels.saturating_sub(log_q_exp) > log_hard_limit {
           // Force the target to hit our limit exactly.
           log_q_exp = log_scale_pixels - log_hard_limit;
-          log_q = ((log_q_exp + (exp >> 1)) / exp) << 6;
+          log_q = log_q_from_exp(log_q_exp, exp);
           // If that target is unreasonable, oh well; we'll have to drop.
         }
       }
@@ -1394,8 +1419,11 @@ impl RCState {
       self.reservoir_frame_delay = s.ntus;
       self.scale_window_nframes = self.nframes_total;
       self.scale_window_sum = s.scale_sum;
-      self.reservoir_max =
-        self.bits_per_tu * (self.reservoir_frame_delay as i64);
+      // A whole-file buffer of any number of frames must leave headroom.
+      self.reservoir_max = self
+        .bits_per_tu
+        .saturating_mul(self.reservoir_frame_delay as i64)
+        .min(1 << 60);
       self.reservoir_target = (self.reservoir_max + 1) >> 1;
       self.reservoir_fullness = self.reservoir_target;
     } else {
-- 
2.43.0


From d9c895c682ebc2f44c358209a4f8fe9ca61b6573 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:55:25 +0000
Subject: [PATCH 28/35] fix: do not allocate for an IVF packet length that the
 data does not back

---
 ivf/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ivf/src/lib.rs b/ivf/src/lib.rs
index 226b39f..2e1099d 100644
--- a/ivf/src/lib.rs
+++ b/ivf/src/lib.rs
@@ -10,7 +10,7 @@
 
 //! Simple ivf muxer
 
-use std::io;
+use std::io::{self, Read};
 
 use bitstream_io::{BitRead, BitReader, BitWrite, BitWriter, LittleEndian};
 
@@ -100,9 +100,12 @@ pub fn read_packet(r: &mut dyn io::Read) -> io::Result<Packet> {
 
   let len: u32 = br.read::<32, _>()?;
   let pts: u64 = br.read::<64, _>()?;
-  let mut buf = vec![0u8; len as usize];
-
-  br.read_bytes(&mut buf)?;
+  // The length may be wrong: let the buffer grow with the data that is there.
+  let mut buf = Vec::new();
+  br.into_reader().take(len.into()).read_to_end(&mut buf)?;
+  if buf.len() < len as usize {
+    return Err(io::ErrorKind::UnexpectedEof.into());
+  }
 
   Ok(Packet { data: buf.into_boxed_slice(), pts })
 }
-- 
2.43.0


From f612f1af04f71e80fe31b59f45bbaa6c81701d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 29/35] fix: save and load the encoder configuration without
 panics or loss

---
 src/bin/common.rs   | 11 ++++++++---
 src/bin/error.rs    |  4 ++++
 src/bin/rav1e-ch.rs |  6 ++++--
 src/bin/rav1e.rs    |  6 ++++--
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/bin/common.rs b/src/bin/common.rs
index ff20ae3..88ca2c1 100644
--- a/src/bin/common.rs
+++ b/src/bin/common.rs
@@ -322,7 +322,7 @@ pub enum Commands {
     #[clap(long, short, value_parser)]
     save_config: Option<PathBuf>,
     /// Load the encoder configuration from a toml file
-    #[clap(long, short, value_parser, conflicts_with = "save-config")]
+    #[clap(long, short, value_parser, conflicts_with = "save_config")]
     load_config: Option<PathBuf>,
   },
 }
@@ -442,7 +442,10 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
               .and_then(|mut f| f.read_to_string(&mut config))
               .map_err(|e| e.context("Cannot open the configuration file"))?;
 
-            enc = Some(toml::from_str(&config).unwrap());
+            enc = Some(
+              toml::from_str(&config)
+                .map_err(|e| e.context("Invalid configuration file"))?,
+            );
           }
         }
         #[cfg(not(feature = "serialize"))]
@@ -480,6 +483,7 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
     rec,
   };
 
+  let enc_loaded = enc.is_some();
   let enc = enc.map_or_else(|| parse_config(&matches), Ok)?;
 
   let verbose = if matches.quiet {
@@ -510,7 +514,8 @@ pub fn parse_cli() -> Result<ParsedCliOptions, CliError> {
     io,
     enc,
     limit,
-    color_range_specified: matches.range.is_some(),
+    // A loaded configuration states its range
+    color_range_specified: matches.range.is_some() || enc_loaded,
     override_time_base: matches.frame_rate.is_some(),
     metrics_enabled,
     skip: matches.skip,
diff --git a/src/bin/error.rs b/src/bin/error.rs
index a98b70a..6dc0d1d 100644
--- a/src/bin/error.rs
+++ b/src/bin/error.rs
@@ -40,6 +40,10 @@ impl ToError for std::io::Error {}
 impl ToError for rav1e::InvalidConfig {}
 impl ToError for rav1e::EncoderStatus {}
 impl ToError for rav1e::config::RateControlError {}
+#[cfg(feature = "serialize")]
+impl ToError for toml::de::Error {}
+#[cfg(feature = "serialize")]
+impl ToError for toml::ser::Error {}
 
 pub fn print_error(e: &dyn std::error::Error) {
   error!("{}", e);
diff --git a/src/bin/rav1e-ch.rs b/src/bin/rav1e-ch.rs
index e5730c0..c0db34c 100644
--- a/src/bin/rav1e-ch.rs
+++ b/src/bin/rav1e-ch.rs
@@ -434,7 +434,8 @@ fn run() -> Result<(), error::CliError> {
   if cli.photon_noise > 0 && cli.enc.film_grain_params.is_none() {
     cli.enc.film_grain_params = Some(vec![generate_photon_noise_params(
       0,
-      u64::MAX,
+      // TOML integers are signed, the configuration may have to be saved
+      i64::MAX as u64,
       NoiseGenArgs {
         iso_setting: cli.photon_noise as u32 * 100,
         width: video_info.width as u32,
@@ -490,7 +491,8 @@ fn run() -> Result<(), error::CliError> {
     if let Some(save_config) = cli.save_config {
       let mut out = File::create(save_config)
         .map_err(|e| e.context("Cannot create configuration file"))?;
-      let s = toml::to_string(&cli.enc).unwrap();
+      let s = toml::to_string(&cli.enc)
+        .map_err(|e| e.context("Cannot express the configuration"))?;
       out
         .write_all(s.as_bytes())
         .map_err(|e| e.context("Cannot write the configuration file"))?
diff --git a/src/bin/rav1e.rs b/src/bin/rav1e.rs
index 80b8409..2640c0c 100644
--- a/src/bin/rav1e.rs
+++ b/src/bin/rav1e.rs
@@ -430,7 +430,8 @@ fn run() -> Result<(), error::CliError> {
   if cli.photon_noise > 0 && cli.enc.film_grain_params.is_none() {
     cli.enc.film_grain_params = Some(vec![generate_photon_noise_params(
       0,
-      u64::MAX,
+      // TOML integers are signed, the configuration may have to be saved
+      i64::MAX as u64,
       NoiseGenArgs {
         iso_setting: cli.photon_noise as u32 * 100,
         width: video_info.width as u32,
@@ -485,7 +486,8 @@ fn run() -> Result<(), error::CliError> {
     if let Some(save_config) = cli.save_config {
       let mut out = File::create(save_config)
         .map_err(|e| e.context("Cannot create configuration file"))?;
-      let s = toml::to_string(&cli.enc).unwrap();
+      let s = toml::to_string(&cli.enc)
+        .map_err(|e| e.context("Cannot express the configuration"))?;
       out
         .write_all(s.as_bytes())
         .map_err(|e| e.context("Cannot write the configuration file"))?
-- 
2.43.0


From c9b4bd0a0201e354bb6f66e4cc1129fb47d1a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:19 +0000
Subject: [PATCH 30/35] fix: count the distortion of samples in blocks cut by
 the frame edge

The portable weighted error summed only whole 4x4 chunks, so rows and
columns left over at the right and bottom frame edge cost nothing and were
left uncoded in inter frames.
---
 src/dist.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/dist.rs b/src/dist.rs
index 3fa3c11..494f004 100644
--- a/src/dist.rs
+++ b/src/dist.rs
@@ -236,7 +236,6 @@ pub(crate) mod rust {
     scale_stride: usize, w: usize, h: usize, _bit_depth: usize,
     _cpu: CpuFeatureLevel,
   ) -> u64 {
-    let src1 = src1.subregion(Area::Rect { x: 0, y: 0, width: w, height: h });
     // Always chunk and apply scaling on the sse of squares the size of
     // decimated/sub-sampled importance block sizes.
     // Warning: Changing this will require changing/disabling assembly.
@@ -245,18 +244,23 @@ pub(crate) mod rust {
     // Iterator of a row of scales, stretched out to be per row
     let scales = scale.chunks_exact(scale_stride);
 
-    let sse = src1
-      .vert_windows(chunk_size)
+    // The last chunk of each row and column may be cut by the frame edge.
+    let sse = (0..h)
       .step_by(chunk_size)
-      .zip(src2.vert_windows(chunk_size).step_by(chunk_size))
       .zip(scales)
-      .map(|((row1, row2), scales)| {
-        row1
-          .horz_windows(chunk_size)
+      .map(|(y, scales)| {
+        (0..w)
           .step_by(chunk_size)
-          .zip(row2.horz_windows(chunk_size).step_by(chunk_size))
           .zip(scales)
-          .map(|((chunk1, chunk2), &scale)| {
+          .map(|(x, &scale)| {
+            let area = Area::Rect {
+              x: x as isize,
+              y: y as isize,
+              width: chunk_size.min(w - x),
+              height: chunk_size.min(h - y),
+            };
+            let chunk1 = src1.subregion(area);
+            let chunk2 = src2.subregion(area);
             let sum = chunk1
               .rows_iter()
               .zip(chunk2.rows_iter())
-- 
2.43.0


From e89e1b19430ae225f90d376baa52b325b2e41d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 31/35] fix: count the chroma distortion of blocks whose luma
 is beyond the frame edge

A luma block narrower or lower than 8 samples may be out of the picture
while the chroma block it carries is not; that chroma was left uncoded.
---
 src/rdo.rs | 65 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/rdo.rs b/src/rdo.rs
index ebae219..799a01c 100644
--- a/src/rdo.rs
+++ b/src/rdo.rs
@@ -253,6 +253,24 @@ pub const fn clip_visible_bsize(
   (visible_w, visible_h)
 }
 
+/// Returns the visible part of the chroma block that is coded along with the
+/// luma block at `frame_bo`. With subsampling, this also covers the chroma of
+/// preceding luma blocks, and may be visible when the luma block is not.
+fn visible_chroma_size<T: Pixel>(
+  fi: &FrameInvariants<T>, bsize: BlockSize, frame_bo: PlaneBlockOffset,
+  xdec: usize, ydec: usize,
+) -> (usize, usize) {
+  let visible = |frame_size: usize, bo: usize, size: usize, dec: usize| {
+    let chroma_size = (size >> dec).max(1 << MI_SIZE_LOG2);
+    let chroma_pos = (bo >> dec) << MI_SIZE_LOG2;
+    ((frame_size + dec) >> dec).saturating_sub(chroma_pos).min(chroma_size)
+  };
+  (
+    visible(fi.width, frame_bo.0.x, bsize.width(), xdec),
+    visible(fi.height, frame_bo.0.y, bsize.height(), ydec),
+  )
+}
+
 // Compute the pixel-domain distortion for an encode
 fn compute_distortion<T: Pixel>(
   fi: &FrameInvariants<T>, ts: &TileStateMut<'_, T>, bsize: BlockSize,
@@ -272,11 +290,8 @@ fn compute_distortion<T: Pixel>(
     frame_bo.0.y << MI_SIZE_LOG2,
   );
 
-  if visible_w == 0 || visible_h == 0 {
-    return ScaledDistortion::zero();
-  }
-
   let mut distortion = match fi.config.tune {
+    _ if visible_w == 0 || visible_h == 0 => Distortion::zero(),
     Tune::Psychovisual => cdef_dist_wxh(
       &input_region,
       &rec_region,
@@ -314,16 +329,13 @@ fn compute_distortion<T: Pixel>(
     && fi.sequence.chroma_sampling != ChromaSampling::Cs400
   {
     let PlaneConfig { xdec, ydec, .. } = ts.input.planes[1].cfg;
-    let chroma_w = if bsize.width() >= 8 || xdec == 0 {
-      (visible_w + xdec) >> xdec
-    } else {
-      (4 + visible_w + xdec) >> xdec
-    };
-    let chroma_h = if bsize.height() >= 8 || ydec == 0 {
-      (visible_h + ydec) >> ydec
-    } else {
-      (4 + visible_h + ydec) >> ydec
-    };
+    let (chroma_w, chroma_h) = visible_chroma_size(
+      fi,
+      bsize,
+      ts.to_frame_block_offset(tile_bo),
+      xdec,
+      ydec,
+    );
 
     for p in 1..3 {
       let input_region = ts.input_tile.planes[p].subregion(area);
@@ -372,11 +384,9 @@ fn compute_tx_distortion<T: Pixel>(
     )
   };
 
-  if visible_w == 0 || visible_h == 0 {
-    return ScaledDistortion::zero();
-  }
-
-  let mut distortion = if skip {
+  let mut distortion = if visible_w == 0 || visible_h == 0 {
+    ScaledDistortion::zero()
+  } else if skip {
     sse_wxh(
       &input_region,
       &rec_region,
@@ -402,16 +412,13 @@ fn compute_tx_distortion<T: Pixel>(
     && fi.sequence.chroma_sampling != ChromaSampling::Cs400
   {
     let PlaneConfig { xdec, ydec, .. } = ts.input.planes[1].cfg;
-    let chroma_w = if bsize.width() >= 8 || xdec == 0 {
-      (visible_w + xdec) >> xdec
-    } else {
-      (4 + visible_w + xdec) >> xdec
-    };
-    let chroma_h = if bsize.height() >= 8 || ydec == 0 {
-      (visible_h + ydec) >> ydec
-    } else {
-      (4 + visible_h + ydec) >> ydec
-    };
+    let (chroma_w, chroma_h) = visible_chroma_size(
+      fi,
+      bsize,
+      ts.to_frame_block_offset(tile_bo),
+      xdec,
+      ydec,
+    );
 
     for p in 1..3 {
       let input_region = ts.input_tile.planes[p].subregion(area);
-- 
2.43.0


From 00dba5634a971f3e746adb4e38a80aafa94fd36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 32/35] bench: expose lrf, quantize and scan_order

---
 src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 670416e..fdc755a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -323,6 +323,15 @@ pub mod bench {
   pub mod cpu_features {
     pub use crate::cpu_features::*;
   }
+  pub mod lrf {
+    pub use crate::lrf::*;
+  }
+  pub mod quantize {
+    pub use crate::quantize::*;
+  }
+  pub mod scan_order {
+    pub use crate::scan_order::*;
+  }
 }
 
 #[cfg(fuzzing)]
-- 
2.43.0


From 18b22c8aa922e107e68ec6ad111a1d1a752b89d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 33/35] fix: the sharp filter of short blocks is the regular
 one's short form

get_filter took the smooth 4-tap filter for blocks of width or height 4
and FilterMode::SHARP in the portable code, the assembly and AV1 7.11.3.4
the regular one.
---
 src/mc.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc.rs b/src/mc.rs
index d442322..68f3916 100644
--- a/src/mc.rs
+++ b/src/mc.rs
@@ -241,7 +241,8 @@ pub(crate) mod rust {
     let filter_idx = if mode == FilterMode::BILINEAR || length > 4 {
       mode as usize
     } else {
-      (mode as usize).min(1) + 4
+      // The sharp filter shares the regular one's short form.
+      (mode == FilterMode::SMOOTH) as usize + 4
     };
     SUBPEL_FILTERS[filter_idx][frac as usize]
   }
-- 
2.43.0


From 1be13f407b8f67e797965e0eb15a054cac7f7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:05 +0000
Subject: [PATCH 34/35] fix: 4-row high bit depth forward transforms wrote past
 their block

The last 256-bit store of the 4-sample column transform wrote 16 bytes
beyond the end of the output.
---
 src/asm/x86/transform/forward.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/asm/x86/transform/forward.rs b/src/asm/x86/transform/forward.rs
index eeaf69a..98d38e7 100644
--- a/src/asm/x86/transform/forward.rs
+++ b/src/asm/x86/transform/forward.rs
@@ -425,9 +425,10 @@ unsafe fn forward_transform_avx2<T: Coefficient>(
               );
             }
             PixelType::U16 => {
-              _mm256_storeu_si256(
+              // Only the lower half holds coefficients of this column.
+              _mm_storeu_si128(
                 output[c * txfm_size_row + rg..].as_mut_ptr() as *mut _,
-                row_coeffs[c].vec(),
+                _mm256_castsi256_si128(row_coeffs[c].vec()),
               );
             }
           }
-- 
2.43.0


From 90dfa47fba0172b10edd61b582c1878b6963fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:18 +0000
Subject: [PATCH 35/35] fix: a requested key frame made scene detection late by
 a frame

The detector was not shown the frames for which a key frame had been
requested, so its history of scores fell behind: a scene change within
the look-ahead after such a frame got its key frame one frame late.
---
 src/api/internal.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/api/internal.rs b/src/api/internal.rs
index 4454045..6c55ae4 100644
--- a/src/api/internal.rs
+++ b/src/api/internal.rs
@@ -881,13 +881,14 @@ impl<T: Pixel> ContextInner<T> {
     keyframe_detector: &mut SceneChangeDetector<T>,
     next_lookahead_frame: &mut u64, keyframes: &mut BTreeSet<u64>,
   ) {
-    if keyframes_forced.contains(next_lookahead_frame)
-      || keyframe_detector.analyze_next_frame(
-        lookahead_frames,
-        *next_lookahead_frame as usize,
-        *keyframes.iter().last().unwrap() as usize,
-      )
-    {
+    // The detector keeps a history of scores, so it has to see every frame,
+    // including those where a key frame was requested.
+    let scene_cut = keyframe_detector.analyze_next_frame(
+      lookahead_frames,
+      *next_lookahead_frame as usize,
+      *keyframes.iter().last().unwrap() as usize,
+    );
+    if scene_cut || keyframes_forced.contains(next_lookahead_frame) {
       keyframes.insert(*next_lookahead_frame);
     }
 
-- 
2.43.0

