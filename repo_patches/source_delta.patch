From 5d8d07d4a9384de79cbe4450bb280f73589d7444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 01/15] fix: check the attr handle in liq_set_speed and
 liq_image_create_custom

---
 imagequant-sys/src/ffi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 42bde26..453924d 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -247,6 +247,7 @@ pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
     attr.inner.set_speed(speed).err().unwrap_or(LIQ_OK)
 }
 
@@ -569,6 +570,7 @@ pub(crate) fn check_image_size(attr: &liq_attr, width: u32, height: u32) -> bool
 #[inline(never)]
 pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback: liq_image_get_rgba_row_callback, user_info: AnySyncSendPtr, width: c_uint, height: c_uint, gamma: f64)
  -> Option<Box<liq_image<'static>>> {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return None; }
     let cb: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync> = Box::new(move |row, y| row_callback(row.as_mut_ptr(), y as _, row.len() as _, user_info));
     liq_image_create_custom_impl(&attr.inner, cb, width as _, height as _, gamma)
         .map(move |inner| Box::new(liq_image {
-- 
2.43.0


From 765d146eb4f321a5173258cf73c12c0c253dbb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 02/15] fix: don't truncate quality and posterization values
 from the C API

---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 453924d..6b10b28 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -234,7 +234,8 @@ pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_min_posterization(bits as u8).err().unwrap_or(LIQ_OK)
+    let Ok(bits) = bits.try_into() else { return Error::ValueOutOfRange };
+    attr.inner.set_min_posterization(bits).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
@@ -262,7 +263,8 @@ pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target: c_uint) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_quality(minimum as u8, target as u8).err().unwrap_or(LIQ_OK)
+    let (Ok(minimum), Ok(target)) = (minimum.try_into(), target.try_into()) else { return Error::ValueOutOfRange };
+    attr.inner.set_quality(minimum, target).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 3bf1dfd2f75a6329c823744a8fb63fc521e5933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 03/15] fix: reject NaN output gamma

---
 src/quant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index be31257..ca50e08 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -144,7 +144,7 @@ impl QuantizationResult {
 
     /// The default is sRGB gamma (~1/2.2)
     pub fn set_output_gamma(&mut self, value: f64) -> Result<(), Error> {
-        if value <= 0. || value >= 1. {
+        if !(value > 0. && value < 1.) {
             return Err(ValueOutOfRange);
         }
 
-- 
2.43.0


From 80a90497f4599a8443b9c87036aeb5a16bbd082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 04/15] fix: validate gamma in Histogram::add_fixed_color

---
 src/hist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 9ec20e1..72080b0 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -167,6 +167,10 @@ impl Histogram {
             return Err(Unsupported);
         }
 
+        if !(0. ..1.).contains(&gamma) {
+            return Err(ValueOutOfRange);
+        }
+
         if self.gamma.is_none() && gamma > 0. {
             self.gamma = Some(gamma);
         }
-- 
2.43.0


From 0233dc564286b0ab2f8189cd03b1fe3a29d6b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 05/15] fix: 32-bit overflow of the number of pixels when
 remapping

---
 src/quant.rs | 2 +-
 src/remap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index ca50e08..0c12cdd 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -118,7 +118,7 @@ impl QuantizationResult {
     }
 
     fn optionally_generate_dither_map(use_dither_map: DitherMapMode, image: &mut Image<'_>, uses_background: bool, output_pixels: &mut RowBitmapMut<'_, MaybeUninit<PalIndexRemap>>, palette: &mut PalF) -> Result<Option<f64>, Error> {
-        let is_image_huge = (image.px.width * image.px.height) > 2000 * 2000;
+        let is_image_huge = (image.width() * image.height()) > 2000 * 2000;
         let allow_dither_map = use_dither_map == DitherMapMode::Always || (!is_image_huge && use_dither_map != DitherMapMode::None);
         let generate_dither_map = allow_dither_map && image.dither_map.is_none();
         if !generate_dither_map {
diff --git a/src/remap.rs b/src/remap.rs
index 78fca5b..1addda4 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -97,7 +97,7 @@ pub(crate) fn remap_to_palette<'x, 'b: 'x>(px: &mut DynamicRows, background: Opt
         .map(|t| t.0.into_inner().0)
         .reduce(Kmeans::merge) { kmeans.finalize(palette); }
 
-    let remapping_error = remapping_error / f64::from(px.width * px.height);
+    let remapping_error = remapping_error / (f64::from(px.width) * f64::from(px.height));
     Ok((remapping_error, unsafe { output_pixels.assume_init() }))
 }
 
-- 
2.43.0


From 879d3634102abb0e215b9ae9b7cabb59ba05e27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 06/15] fix: don't read uninitialized discard_row when
 dithering in chunks

---
 src/remap.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/remap.rs b/src/remap.rs
index 1addda4..3015db2 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -208,7 +208,7 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
                     let bg_pixels = background.as_mut().map(|b| b.row_f(&mut temp_row, row as _)).unwrap_or(&[]);
                     let dither_map = dither_map.get(row * width .. row * width + width).unwrap_or(&[]);
                     let scan_forward = row & 1 == 0;
-                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, guess_from_remapped_pixels, &mut diffusion, scan_forward);
+                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, false, &mut diffusion, scan_forward);
                 }
             }
             // parallel remap makes progress not very useful
-- 
2.43.0


From 33ea57f0c9f7859c6252ec5fd9dc4ec1b1c6472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 07/15] fix: palette() ignored output gamma set after an
 earlier palette() call

---
 src/quant.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quant.rs b/src/quant.rs
index 0c12cdd..9dbcaa3 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -149,6 +149,7 @@ impl QuantizationResult {
         }
 
         self.remapped = None;
+        self.int_palette.count = 0;
         self.gamma = value;
 
         Ok(())
-- 
2.43.0


From 7009bd48a6cc03c8c11c08e7c0c6bd2e3034598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:21 +0000
Subject: [PATCH 08/15] fix: abort when the progress callback asks for it
 during color selection

---
 src/quant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 9dbcaa3..186ad21 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -396,7 +396,10 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
             target_mse_overshoot = 1.;
             trials_left -= 5 + fails_in_a_row;
         }
-        if attr.progress(overall_done) || trials_left <= 0 {
+        if attr.progress(overall_done) {
+            return Err(Aborted);
+        }
+        if trials_left <= 0 {
             break best_palette;
         }
     }.ok_or(ValueOutOfRange)?;
@@ -416,7 +419,7 @@ fn refine_palette(palette: &mut PalF, attr: &Attributes, hist: &mut HistogramInt
             let stage_done = f32::from(i) / f32::from(iterations);
             let overall_done = (stage_done * f32::from(attr.progress_stage3)).mul_add(0.89, f32::from(attr.progress_stage1) + f32::from(attr.progress_stage2));
             if attr.progress(overall_done) {
-                break;
+                return Err(Aborted);
             }
 
             let pal_err = Kmeans::iteration(hist, palette, false)?;
-- 
2.43.0


From f6f85bb3b22f61153cd8f6604bdbed340dc37093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 09/15] fix: fail as documented when images add too many fixed
 colors to a histogram

---
 src/hist.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 72080b0..5ee803e 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -105,6 +105,13 @@ impl Histogram {
     pub fn add_image(&mut self, attr: &Attributes, image: &mut Image) -> Result<(), Error> {
         let width = image.width();
         let height = image.height();
+        let new_fixed_colors = image.fixed_colors.iter().copied().enumerate()
+            .filter(|&(idx, rgba)| !self.fixed_colors.contains(&HashColor { rgba, index: idx as _ }))
+            .count();
+        if self.fixed_colors.len() + new_fixed_colors > MAX_COLORS {
+            return Err(BufferTooSmall);
+        }
+
         if image.importance_map.is_none() && attr.use_contrast_maps {
             image.contrast_maps()?;
         }
-- 
2.43.0


From f59d950540a949051b55b5ca5da323d808a05089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 10/15] fix: don't lose weights of histogram colors merged by
 posterization

---
 src/hist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 5ee803e..eff202b 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -253,9 +253,11 @@ impl Histogram {
 
         let new_size = (self.hashmap.len()/3).max(self.hashmap.capacity()/5);
         let old_hashmap = std::mem::replace(&mut self.hashmap, HashMap::with_capacity_and_hasher(new_size, U32Hasher(0)));
-        self.hashmap.extend(old_hashmap.into_iter().map(move |(k, v)| {
-            (k & new_posterize_mask, v)
-        }));
+        for (k, (boost, rgba)) in old_hashmap {
+            self.hashmap.entry(k & new_posterize_mask)
+                .and_modify(move |e| e.0 = e.0.saturating_add(boost))
+                .or_insert((boost, rgba));
+        }
     }
 
     pub(crate) fn add_pixel_rows(&mut self, image: &DynamicRows<'_, '_>, importance_map: Option<&[u8]>, posterize_bits: u8) -> Result<(), Error> {
-- 
2.43.0


From bfbb79ec86f5e852b4658cb22b5131d73022f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 11/15] fix: don't take ownership of rows that have been
 released already

---
 src/rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index 80254a1..57848c5 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -219,6 +219,8 @@ impl<'pixels, 'rows> DynamicRows<'pixels, 'rows> {
     pub(crate) unsafe fn set_memory_ownership(&mut self, own_rows: bool, own_pixels: bool, free_fn: unsafe extern "C" fn(*mut std::os::raw::c_void)) -> Result<(), Error> {
         if own_rows {
             match &mut self.pixels {
+                // This happens when histogram image is recycled
+                PixelsSource::Pixels { rows, .. } if rows.as_slice().is_empty() => return Err(Error::Unsupported),
                 PixelsSource::Pixels { rows, .. } => rows.make_owned(free_fn),
                 PixelsSource::Callback(_) => return Err(Error::ValueOutOfRange),
             }
-- 
2.43.0


From d8f1730b545ed687d62160af0222a456c7920187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 12/15] fix: use-after-free of pixels in a cloned image

---
 src/rows.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/rows.rs b/src/rows.rs
index 57848c5..3a40e24 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -51,9 +51,18 @@ impl Clone for DynamicRows<'_, '_> {
             height: self.height,
             f_pixels: self.f_pixels.clone(),
             pixels: match &self.pixels {
-                PixelsSource::Pixels { rows, pixels } => PixelsSource::Pixels {
+                PixelsSource::Pixels { rows, pixels: Some(pixels) } => {
+                    let new_pixels = pixels.clone();
+                    let (old_ptr, new_ptr) = (pixels.as_slice().as_ptr(), new_pixels.as_slice().as_ptr());
+                    // rows must point to the new copy of the pixels, if they have been copied
+                    let rows = rows.as_slice().iter().map(|row| {
+                        Pointer(new_ptr.wrapping_offset(unsafe { row.0.offset_from(old_ptr) }))
+                    }).collect();
+                    PixelsSource::Pixels { rows: SeaCow::boxed(rows), pixels: Some(new_pixels) }
+                },
+                PixelsSource::Pixels { rows, pixels: None } => PixelsSource::Pixels {
                     rows: rows.clone(),
-                    pixels: pixels.clone(),
+                    pixels: None,
                 },
                 PixelsSource::Callback(_) => {
                     let area = self.width as usize * self.height as usize;
-- 
2.43.0


From 0040139c20e41eacd6190286315c89c8ef901a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 13/15] fix: don't overwrite user-supplied importance map when
 dithering

---
 src/image.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 9c17ed9..bd83358 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -243,8 +243,13 @@ impl<'pixels> Image<'pixels> {
             return Ok(()); // shrug
         }
 
-        let noise = if let Some(n) = self.importance_map.as_deref_mut() { n } else {
-            let vec = try_zero_vec(width * height)?;
+        let mut tmp_noise;
+        let vec = try_zero_vec(width * height)?;
+        let noise = if self.importance_map.is_some() {
+            // must not overwrite the map set by the user
+            tmp_noise = vec.into_boxed_slice();
+            &mut tmp_noise
+        } else {
             self.importance_map.get_or_insert_with(move || vec.into_boxed_slice())
         };
 
-- 
2.43.0


From 92b177b6ff9054e355e3e9591a3630f84107048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:13 +0000
Subject: [PATCH 14/15] fix: memory leak in liq_image_set_background

---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 6b10b28..db303fd 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -361,10 +361,12 @@ pub extern "C" fn liq_image_destroy(_: Option<Box<liq_image>>) {}
 
 #[no_mangle]
 #[inline(never)]
-pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, background: Box<liq_image<'pixels>>) -> liq_error {
+pub extern "C" fn liq_image_set_background<'pixels>(img: &mut liq_image<'pixels>, mut background: Box<liq_image<'pixels>>) -> liq_error {
     if bad_object!(img, LIQ_IMAGE_MAGIC) ||
        bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }
-    let background = unsafe { ManuallyDrop::take(&mut ManuallyDrop::new(background).inner) };
+    // drop of the box won't drop the inner image that has been taken
+    background.magic_header = LIQ_FREED_MAGIC;
+    let background = unsafe { ManuallyDrop::take(&mut background.inner) };
     img.inner.set_background(background).err().unwrap_or(LIQ_OK)
 }
 
-- 
2.43.0


From 04992c02c10f72492fbfce0266c9b324515f0793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:32 +0000
Subject: [PATCH 15/15] fix: NaN error bypassed minimum quality for histograms
 of only fixed colors

---
 src/hist.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index eff202b..5b8395a 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -346,7 +346,8 @@ impl Histogram {
             let weight = if temp_item.weight > 0. {
                 (temp_item.weight * (1. / 256.)).min(max_perceptual_weight)
             } else {
-                max_perceptual_weight * 10.
+                // there may be nothing but fixed colors
+                if max_perceptual_weight > 0. { max_perceptual_weight * 10. } else { 1. }
             };
             total_perceptual_weight += f64::from(weight);
 
-- 
2.43.0

