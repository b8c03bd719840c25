From 5e0f857452e9036d22d1f4c2e3f55756ca1074dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:12 +0000
Subject: [PATCH 01/16] fix: Matrix33::inverse must not take the affine path
 for negative third-column entries

---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 5e45db9..e1450a9 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -267,7 +267,7 @@ where
 
     /// Matrix inverse
     pub fn inverse(self) -> Option<Matrix33<T>> {
-        if self[0][2] > T::epsilon() || self[1][2] > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
+        if self[0][2].abs() > T::epsilon() || self[1][2].abs() > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
             let mut mtx_s = Matrix33::new([
                 self[1][1] * self[2][2] - self[2][1] * self[1][2],
                 self[2][1] * self[0][2] - self[0][1] * self[2][2],
-- 
2.43.0


From 33b8c7e5655c9a7f3ebb3b327116f3c588abfe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:20 +0000
Subject: [PATCH 02/16] fix: Matrix33::inverse scaled the bottom-right element
 of affine matrices by the determinant

---
 src/math.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index e1450a9..54c8381 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -313,13 +313,14 @@ where
 
             let r = self[0][0] * self[1][1] - self[1][0] * self[0][1];
 
+            // Only the upper-left 2x2 block is scaled, the bottom-right element stays 1
             if r.abs() >= T::one() {
-                for s in mtx_s.x.iter_mut() {
+                for s in mtx_s.x.iter_mut().take(8) {
                     *s /= r;
                 }
             } else {
                 let mr = r.abs() / T::min_positive_value();
-                for s in mtx_s.x.iter_mut() {
+                for s in mtx_s.x.iter_mut().take(8) {
                     if mr > s.abs() {
                         *s /= r;
                     } else {
-- 
2.43.0


From e70cfb8ad5bac0fbc984e233a0de9ca8f10be616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 03/16] fix: Matrix33::gj_inverse must search pivots in the
 partially eliminated matrix

---
 src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 54c8381..c98d08d 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -199,10 +199,10 @@ where
         // Forward elimination
         for i in 0..2 {
             let mut pivot = i;
-            let mut pivot_size: T = self[i][i].abs();
+            let mut pivot_size: T = mtx_t[i][i].abs();
 
             for j in (i + 1)..3 {
-                let tmp = self[j][i].abs();
+                let tmp = mtx_t[j][i].abs();
                 if tmp > pivot_size {
                     pivot = j;
                     pivot_size = tmp;
-- 
2.43.0


From a38f81dd88a3901d54f3b457efdbe1ce6315ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:40 +0000
Subject: [PATCH 04/16] fix: illuminant::xy::cct must reject NaN instead of
 returning a NaN chromaticity

---
 src/illuminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/illuminant.rs b/src/illuminant.rs
index ae3b692..eb6f37d 100644
--- a/src/illuminant.rs
+++ b/src/illuminant.rs
@@ -47,7 +47,7 @@ pub mod xy {
     {
         let t2 = t * t;
         let t3 = t2 * t;
-        if t < 4000.0 || t > 25000.0 {
+        if !(t >= 4000.0 && t <= 25000.0) {
             Err(TemperatureOutOfBound)
         } else if t <= 7000.0 {
             let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
-- 
2.43.0


From 27a409da5fcae918014af591dbae8e474c2c33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:53 +0000
Subject: [PATCH 05/16] fix: xyz_slice_to_rgb_avx_planes left trailing pixels
 unconverted

---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 9c42ab8..e2652b3 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -98,7 +98,7 @@ pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
     let num_iters = xs.len() / S::VF32_WIDTH;
-    let start_remaining = xs.len() - num_iters;
+    let start_remaining = num_iters * S::VF32_WIDTH;
 
     let m0 = unsafe { S::set1_ps(mtx.x[0]) };
     let m1 = unsafe { S::set1_ps(mtx.x[1]) };
-- 
2.43.0


From 63a9d17f55506847f14d7eda398ab8453c2b68d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:53 +0000
Subject: [PATCH 06/16] fix: xyz_slice_to_rgb_avx_planes read out of bounds
 when ys or zs is shorter than xs

---
 src/transform.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transform.rs b/src/transform.rs
index e2652b3..f3aaf8e 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -94,6 +94,9 @@ where
 
 #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
 pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys: &[f32], zs: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
+    // the loads below are unchecked
+    assert!(ys.len() >= xs.len() && zs.len() >= xs.len(), "ys and zs must be at least as long as xs");
+
     let mut result_r = vec![0.0f32; xs.len()];
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
-- 
2.43.0


From cc9b1a25c9a6a288abf3ccb35c1a0fbeeefef4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:47 +0000
Subject: [PATCH 07/16] fix: calculate_interval ignored the last gap when
 deciding whether a VSPD is uniform

---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6c82bfa..62218e4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -439,7 +439,7 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         panic!("Must have at least 2 samples");
     }
     let assumed_interval = samples[1].nm - samples[0].nm;
-    for i in 1..samples.len() - 1 {
+    for i in 1..samples.len() {
         // This is safe because we guarantee we're in bounds in the for loop
         let interval = unsafe { samples.get_unchecked(i).nm - samples.get_unchecked(i - 1).nm };
         if !interval.approx_eq(assumed_interval, F64Margin { ulps: 2, epsilon: 1.0e-11 }) {
-- 
2.43.0


From 532968c29b30058466a07cb6ae95875f73d29b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:10 +0000
Subject: [PATCH 08/16] fix: SpdShape dropped its last wavelength when the
 number of steps is a whole number only up to rounding

---
 src/vspd.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 62218e4..2b69215 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -77,11 +77,17 @@ where
         };
         SpdShapeIterator::<T> {
             current: 0,
-            end: ((self.end - self.start) / interval).to_usize().unwrap() + 1,
+            end: self.num_steps(interval) + 1,
             start: self.start,
             interval,
         }
     }
+
+    /// The number of whole steps of size `interval` from start to end. A step
+    /// that reaches the end up to rounding error is a whole one
+    fn num_steps(&self, interval: T) -> usize {
+        ((self.end - self.start) / interval + T::epsilon().sqrt()).to_usize().unwrap()
+    }
 }
 
 pub struct SpdShapeIterator<T>
@@ -224,7 +230,7 @@ impl VSPD {
                 panic!("Cannot create a VSPD with varying interval");
             }
         };
-        let num_samples_from_shape = ((shape.end - shape.start) / interval) as usize + 1;
+        let num_samples_from_shape = shape.num_steps(interval) + 1;
         if num_samples_from_shape != values.len() {
             panic!(
                 "Length of values slice did not match requested shape. SpdShape has {} samples, but values slice had {} values.",
-- 
2.43.0


From 6592629536c379a7a7f6a5369a30f8edc2ebd6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:59 +0000
Subject: [PATCH 09/16] fix: linspace of a single value was NaN

---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 2b69215..a05710f 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -722,7 +722,7 @@ impl Iterator for FloatRange {
 }
 
 pub fn linspace(start: f64, end: f64, steps: usize) -> FloatRange {
-    let delta = (end - start) / (steps - 1) as f64;
+    let delta = if steps > 1 { (end - start) / (steps - 1) as f64 } else { 0.0 };
     FloatRange {
         current: 0,
         steps,
-- 
2.43.0


From 0b5a1d220832a251d0bd3d6a9ea0cc995a9effe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:59 +0000
Subject: [PATCH 10/16] fix: InterpolatorSprague was wrong at the boundaries of
 spectra with fewer than six samples

---
 src/interpolation.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/interpolation.rs b/src/interpolation.rs
index 52643b0..c9ab006 100644
--- a/src/interpolation.rs
+++ b/src/interpolation.rs
@@ -112,11 +112,25 @@ where
             .map(|(c, s)| *c * s.v)
             .sum::<f64>();
 
-        y.push(y1 / 209.0);
-        y.push(y2 / 209.0);
-        y.extend(vspd.iter().map(|s| s.v));
-        y.push(y3 / 209.0);
-        y.push(y4 / 209.0);
+        if vspd.len() < 6 {
+            // The boundary formulas need six samples; with fewer, continue the
+            // line through the two samples nearest the boundary
+            let v = vspd.values().collect::<Vec<_>>();
+            let n = v.len() - 1;
+            let (d1, d2) = (v[1] - v[0], v[n] - v[n - 1]);
+
+            y.push(v[0] - 2.0 * d1);
+            y.push(v[0] - d1);
+            y.extend(&v);
+            y.push(v[n] + d2);
+            y.push(v[n] + 2.0 * d2);
+        } else {
+            y.push(y1 / 209.0);
+            y.push(y2 / 209.0);
+            y.extend(vspd.iter().map(|s| s.v));
+            y.push(y3 / 209.0);
+            y.push(y4 / 209.0);
+        }
 
         InterpolatorSprague { x, y }
     }
-- 
2.43.0


From 16ed23bfdbf16605a4029824df46730295350264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:47 +0000
Subject: [PATCH 11/16] fix: VSPD::extrapolate reported a shape narrower than
 its samples

---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index a05710f..116864f 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -361,7 +361,7 @@ impl VSPD {
 
         VSPD {
             samples,
-            shape: SpdShape::new(shape.start, shape.end, interval),
+            shape: SpdShape::new(start, end, interval),
         }
     }
 
-- 
2.43.0


From 3fa920725862fa00e24eca8a6c7ace74319b0be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:56 +0000
Subject: [PATCH 12/16] fix: VSPD::align returned samples that are not on the
 requested shape unless the spectrum's ends are

---
 src/vspd.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 116864f..dcb862b 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -316,10 +316,20 @@ impl VSPD {
         VSPD { samples, shape }
     }
 
-    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
-    /// interpolating then extrapolating
+    /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by
+    /// interpolating inside the domain of this VSPD and extrapolating outside it
     pub fn align(&self, shape: SpdShape<f64>) -> VSPD {
-        self.interpolate(shape).extrapolate(shape)
+        let interp = InterpolatorSprague::<f64>::new(self);
+        let extrap = ExtrapolatorConstant::new(self);
+        let samples = shape
+            .iter()
+            .map(|nm| {
+                let inside = nm >= self.first().nm && nm <= self.last().nm;
+                Sample::new(nm, if inside { interp.evaluate(nm) } else { extrap.evaluate(nm) })
+            })
+            .collect();
+
+        VSPD { samples, shape }
     }
 
     /// Create a new VSPD by extrapolating the boundaries of the domain of this
-- 
2.43.0


From fe635df1eed1933ba3670ede87f399967a30f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:31 +0000
Subject: [PATCH 13/16] fix: VSPD::to_xyz treated fractional intervals as the
 next smaller whole one

---
 src/vspd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index dcb862b..d98ec6b 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -422,7 +422,9 @@ impl VSPD {
                 spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
             }
             Interval::Uniform(interval) => {
-                match interval.to_usize().unwrap() {
+                // only whole intervals have a method of their own
+                let whole_interval = if interval.fract() == 0.0 { interval.to_usize().unwrap() } else { 0 };
+                match whole_interval {
                     1 => {
                         // just integrate
                         spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
-- 
2.43.0


From 3333e65aa4531d981bcba7d3c88dc53c54feb6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:34 +0000
Subject: [PATCH 14/16] fix: VSPD::to_xyz applied 10nm weighting factors to
 samples at other wavelengths

---
 src/vspd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index d98ec6b..ed30a9d 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -435,8 +435,9 @@ impl VSPD {
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 => {
-                        // use ASTME308 weighting factors
+                    10 if (self.start() - cmf.shape().start) % interval == 0.0 => {
+                        // use ASTME308 weighting factors, which apply to every
+                        // tenth wavelength from the start of the CMF
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
                     }
                     // 20.0 => {
-- 
2.43.0


From b6de5326ff14ea5892499fc24fcad931c0c8e71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:37 +0000
Subject: [PATCH 15/16] fix: VSPD::to_xyz integrated spectra of varying
 interval over their own range only

---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index ed30a9d..ad9c88f 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -419,7 +419,7 @@ impl VSPD {
         match self.interval() {
             Interval::Varying => {
                 let spd = self.align(SpdShape::new(self.shape.start, self.shape.end, 1.0));
-                spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
+                spd_to_xyz_integration(&spd, &illuminant, &cmf, SpdShape::astm_e308())
             }
             Interval::Uniform(interval) => {
                 // only whole intervals have a method of their own
-- 
2.43.0


From ee585d082fd37a746992d227f864ce7ea1466660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:42 +0000
Subject: [PATCH 16/16] fix: VSPD::extrapolate reported a uniform spectrum when
 its samples are not evenly spaced

---
 src/vspd.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index ad9c88f..b743c97 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -369,10 +369,15 @@ impl VSPD {
             x += interval;
         }
 
-        VSPD {
-            samples,
-            shape: SpdShape::new(start, end, interval),
-        }
+        // the range need not be on the grid of this SPD, which may be varying
+        // itself, so the shape is that of the samples
+        let shape = if samples.len() < 2 {
+            SpdShape::new(start, end, interval)
+        } else {
+            calculate_shape(&samples)
+        };
+
+        VSPD { samples, shape }
     }
 
     /// Trim this [VSPD] to lie inside the given [SpdShape].
-- 
2.43.0

