From c2215b308d9e41f0b0224926b4a1b0bc4710dac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 01/22] fix: PrimitiveList::intersect returns the nearest hit,
 not the last one

---
 src/geometry/primitive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 9adb447..57424ea 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -151,7 +151,7 @@ impl IntersectsRay for PrimitiveList {
         let mut result = None;
         let mut ray_mut = ray;
         for primitive_handle in self.primitives.iter() {
-            if let Some(intersection_result) = (*primitive_handle).intersect(ray) {
+            if let Some(intersection_result) = (*primitive_handle).intersect(ray_mut) {
                 ray_mut.tmax = intersection_result.t_ray;
                 result = Some(intersection_result);
             }
-- 
2.43.0


From 3c40b6d602e0718ec0a7ecce3980ea5f01f6dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 02/22] fix: accumulate transformed bbox extents per matrix row

---
 src/geometry/bbox.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index fa31a65..869c728 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -298,11 +298,11 @@ fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
             let b = m[i][j] * bbox_pmax[j];
 
             if a < b {
-                pmin[j] += a;
-                pmax[j] += b;
+                pmin[i] += a;
+                pmax[i] += b;
             } else {
-                pmin[j] += b;
-                pmax[j] += a;
+                pmin[i] += b;
+                pmax[i] += a;
             }
         }
     }
-- 
2.43.0


From dd70faa274cdec03a7bb7e1c8c926822abff5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 03/22] fix: map normals linearly (drop stray n.z factor)

---
 src/math/transform.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 4b5e6c4..301d80f 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -565,9 +565,9 @@ where
 {
     // normals are mapped by the inverse transpose of the transformation matrix
     Normal3::new(
-        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)] * n.z(),
-        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)] * n.z(),
-        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)] * n.z(),
+        n.x() * minv[(0, 0)] + n.y() * minv[(1, 0)] + n.z() * minv[(2, 0)],
+        n.x() * minv[(0, 1)] + n.y() * minv[(1, 1)] + n.z() * minv[(2, 1)],
+        n.x() * minv[(0, 2)] + n.y() * minv[(1, 2)] + n.z() * minv[(2, 2)],
     )
 }
 
-- 
2.43.0


From 5ace256ff48475da15594e02c523f8b5dbe3ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 04/22] fix: upper bound of the product of two intervals
 straddling zero

---
 src/math/interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index 92e275f..d07f080 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -239,7 +239,7 @@ impl<T: GFloat> std::ops::Mul<Self> for Interval<T> {
             } else {
                 Self::new(
                     (a.inf * b.sup).min(a.sup * b.inf).next_down(),
-                    (a.inf * a.inf).max(b.sup * b.sup).next_up(),
+                    (a.inf * b.inf).max(a.sup * b.sup).next_up(),
                 )
             }
         }
-- 
2.43.0


From 714f40fae728f913f4a94132b3738fc160c1789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 05/22] fix: GFloat::is_infinite reported finiteness

---
 src/math/scalar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1b97025..1ac0302 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -460,7 +460,7 @@ impl GFloat for f32 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
@@ -653,7 +653,7 @@ impl GFloat for f64 {
         self.is_finite()
     }
     fn is_infinite(self) -> bool {
-        self.is_finite()
+        self.is_infinite()
     }
 
     // consts
-- 
2.43.0


From 8d3caec698ece734b2f129ea2281967e8593fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 06/22] fix: f32 pi_upper was below pi

---
 src/math/scalar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/scalar.rs b/src/math/scalar.rs
index 1ac0302..5366b99 100644
--- a/src/math/scalar.rs
+++ b/src/math/scalar.rs
@@ -500,7 +500,7 @@ impl GFloat for f32 {
     }
     #[inline]
     fn pi_upper() -> Self {
-        13176794.0f32 / ((1 << 22) as f32)
+        13176795.0f32 / ((1 << 22) as f32)
     }
     #[inline]
     fn tau_lower() -> Self {
-- 
2.43.0


From 80656b8f83137356a14b858fc7365982e6698349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 07/22] fix: ranges of interval asin and acos

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 8109230..e5c9d4c 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -135,12 +135,12 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn asin(self) -> Self {
         self.map_monotonic_inc(T::asin)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(-T::frac_pi_2_upper(), T::frac_pi_2_upper()))
     }
     #[inline]
     fn acos(self) -> Self {
         self.map_monotonic_dec(T::acos)
-            .intersect(Interval::new(T::zero(), T::frac_pi_2_upper()))
+            .intersect(Interval::new(T::zero(), T::pi_upper()))
     }
     #[inline]
     fn atan(self) -> Self {
-- 
2.43.0


From acb11e83c62fe808472059057ddc9391575e2cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 08/22] fix: interval atan2 on the axes

---
 src/math/interval_as_gfloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index e5c9d4c..13c485f 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -151,7 +151,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let y = self;
         let x = rhs;
 
-        if x.is_zero() || y.is_zero() {
+        if x.is_zero() && y.is_zero() {
             Interval::zero()
         }
         // X >= 0  -> first and fourth quadrants
-- 
2.43.0


From 048750d04eba9680822bc9f60dabe5920d1c35b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:54 +0000
Subject: [PATCH 09/22] fix: interval sin/cos of arguments wider than half a
 period

---
 src/math/interval_as_gfloat.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 13c485f..30784ad 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -87,6 +87,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if cos_inf.signum() == cos_sup.signum() {
+            // more than half a period apart: both extrema lie in between
+            if diff >= T::pi() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.sin(), self.sup.sin());
             Self::new(t0.next_down(), t1.next_up())
         } else {
@@ -110,6 +114,10 @@ impl<T: GFloat> GFloat for Interval<T> {
 
         // same side
         if sin_inf.signum() == sin_sup.signum() {
+            // more than half a period apart: both extrema lie in between
+            if diff >= T::pi() {
+                return Self::new(-T::one(), T::one());
+            }
             let (t0, t1) = T::min_max(self.inf.cos(), self.sup.cos());
             Self::new(t0.next_down(), t1.next_up())
         } else {
-- 
2.43.0


From 39aae19d8721015377b87df3438d768dd80ec4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:25 +0000
Subject: [PATCH 10/22] fix: interval cos of wide arguments starting at zero

---
 src/math/interval_as_gfloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 30784ad..757bd12 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -113,7 +113,7 @@ impl<T: GFloat> GFloat for Interval<T> {
         let (sin_inf, sin_sup) = (self.inf.sin(), self.sup.sin());
 
         // same side
-        if sin_inf.signum() == sin_sup.signum() {
+        if sin_inf.is_negative() == sin_sup.is_negative() {
             // more than half a period apart: both extrema lie in between
             if diff >= T::pi() {
                 return Self::new(-T::one(), T::one());
@@ -122,7 +122,7 @@ impl<T: GFloat> GFloat for Interval<T> {
             Self::new(t0.next_down(), t1.next_up())
         } else {
             // minima
-            if sin_inf.is_positive() {
+            if !sin_inf.is_negative() {
                 Self::new(-T::one(), self.inf.cos().max(self.sup.cos()).next_up())
             }
             // maxima
-- 
2.43.0


From 0221b513870ae269af20677e03c849ea7fd28cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 11/22] fix: interval sqrt of an enclosure reaching below zero

---
 src/math/interval.rs           | 4 +++-
 src/math/interval_as_gfloat.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index d07f080..cf7f435 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -63,7 +63,9 @@ impl<T: GFloat> Interval<T> {
     }
     #[inline]
     pub fn sqrt(self) -> Self {
-        Self::new(self.inf.sqrt().next_down(), self.sup.sqrt().next_up())
+        // the enclosure of a non-negative value may reach an ulp below zero
+        let inf = self.inf.max(T::zero());
+        Self::new(inf.sqrt().next_down(), self.sup.sqrt().next_up())
     }
     #[inline]
     pub fn approx(self) -> T {
diff --git a/src/math/interval_as_gfloat.rs b/src/math/interval_as_gfloat.rs
index 757bd12..d1f4f43 100644
--- a/src/math/interval_as_gfloat.rs
+++ b/src/math/interval_as_gfloat.rs
@@ -72,7 +72,7 @@ impl<T: GFloat> GFloat for Interval<T> {
     #[inline]
     fn sqrt(self) -> Self {
         Self::from(T::min_max(
-            self.inf.sqrt().next_down(),
+            self.inf.max(T::zero()).sqrt().next_down(),
             self.sup.sqrt().next_up(),
         ))
     }
-- 
2.43.0


From e2de821e57e6ae1b9ccaa2924282b65d2d2ca347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 12/22] fix: interval min_max, clamp and signum of overlapping
 intervals

---
 src/math/interval.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/math/interval.rs b/src/math/interval.rs
index cf7f435..340ca9e 100644
--- a/src/math/interval.rs
+++ b/src/math/interval.rs
@@ -427,12 +427,25 @@ impl<T: GFloat> Scalar for Interval<T> {
     fn min(self, other: Self) -> Self {
         Self::new(self.inf.min(other.inf), self.sup.min(other.sup))
     }
+    // the defaults assume a total order, overlapping intervals are not ordered
+    #[inline]
+    fn min_max(self, other: Self) -> (Self, Self) {
+        (Scalar::min(self, other), Scalar::max(self, other))
+    }
+    #[inline]
+    fn clamp(self, lo: Self, hi: Self) -> Self {
+        Scalar::min(Scalar::max(self, lo), hi)
+    }
     #[inline]
     fn square(self) -> Self {
         self.square()
     }
 }
 impl<T: GFloat> SignedScalar for Interval<T> {
+    #[inline]
+    fn signum(self) -> Self {
+        Self::new(self.inf.signum(), self.sup.signum())
+    }
     #[inline]
     fn abs(self) -> Self {
         if self.inf.is_negative() {
-- 
2.43.0


From b72a16c66a5a44afe785e9658ac7d625dec9351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 13/22] fix: mapping vectors with interval components always
 panicked

---
 src/math/transform.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/math/transform.rs b/src/math/transform.rs
index 301d80f..9457168 100644
--- a/src/math/transform.rs
+++ b/src/math/transform.rs
@@ -501,10 +501,9 @@ where
     T: Scalar,
     U: Scalar + Mul<T, Output = U>,
 {
-    assert_eq!(
-        vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)],
-        U::zero()
-    );
+    // an interval w is never exactly zero, but it must not exclude zero
+    let w = vec.x() * m[(3, 0)] + vec.y() * m[(3, 1)] + vec.z() * m[(3, 2)];
+    assert!(!(w < U::zero() || w > U::zero()));
     Vector3::new(
         vec.x() * m[(0, 0)] + vec.y() * m[(0, 1)] + vec.z() * m[(0, 2)],
         vec.x() * m[(1, 0)] + vec.y() * m[(1, 1)] + vec.z() * m[(1, 2)],
-- 
2.43.0


From 8d8c49c9b3def67187e055249287a3ddc7f71ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 14/22] fix: polar angle of the lower hemisphere of a sphere

---
 src/geometry/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 550ee7a..6e4f317 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -49,8 +49,8 @@ impl Sphere {
     pub fn new(radius: Float, z_min: Float, z_max: Float, phi_max: Float) -> Self {
         assert!(z_min < z_max);
 
-        let theta_min = Float::clamp(z_min / radius, Float::zero(), Float::one()).acos();
-        let theta_max = Float::clamp(z_max / radius, Float::zero(), Float::one()).acos();
+        let theta_min = Float::clamp(z_min / radius, -Float::one(), Float::one()).acos();
+        let theta_max = Float::clamp(z_max / radius, -Float::one(), Float::one()).acos();
 
         Self {
             radius,
@@ -125,7 +125,7 @@ impl IntersectsRay for Sphere {
         let t_ray = intersection_params.t_ray;
         let p = intersection_params.p;
         let phi = intersection_params.phi;
-        let theta = Float::clamp(p.z() / self.radius, Float::zero(), Float::one()).acos();
+        let theta = Float::clamp(p.z() / self.radius, -Float::one(), Float::one()).acos();
 
         let sin_theta = theta.sin();
         let (sin_phi, cos_phi) = phi.sin_cos();
-- 
2.43.0


From ddfe09c36c0c8586c08b0ef2f4b16abea2d9d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:45 +0000
Subject: [PATCH 15/22] fix: sphere area for azimuths starting at -pi

---
 src/geometry/sphere.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 6e4f317..202921e 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -111,7 +111,7 @@ impl Sphere {
     }
     pub fn area(&self) -> Float {
         // FloatODO: derive this formula
-        self.phi_max * self.radius * (self.z_max - self.z_min)
+        (self.phi_max + Float::pi()) * self.radius * (self.z_max - self.z_min)
     }
 }
 
-- 
2.43.0


From f61abd005566d8e71a05d99371f4e9efb3f55785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:20 +0000
Subject: [PATCH 16/22] fix: sphere normal was NaN at the poles

---
 src/geometry/sphere.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geometry/sphere.rs b/src/geometry/sphere.rs
index 202921e..1fa9c34 100644
--- a/src/geometry/sphere.rs
+++ b/src/geometry/sphere.rs
@@ -6,7 +6,7 @@ use crate::{
     },
     math::{
         scalar::{Float, GFloat, Scalar, SignedScalar},
-        vector::{Point2f, Point3f, Vector3f},
+        vector::{Normal3f, Point2f, Point3f, Vector3f},
     },
 };
 
@@ -157,8 +157,10 @@ impl IntersectsRay for Sphere {
         let dpdv = Vector3f::new(p.z() * cos_phi, p.z() * sin_phi, -self.radius * sin_theta)
             * (theta_max_minus_theta_min);
 
-        let surface_interaction =
+        let mut surface_interaction =
             SurfaceInteraction::new(intersection_params.p, Point2f::new(u, v), dpdu, dpdv);
+        // dpdu vanishes at the poles, the radial direction is always defined
+        surface_interaction.n = Normal3f::from(Vector3f::from(p).normalize());
 
         Some(IntersectionResult {
             surface_interaction,
-- 
2.43.0


From 4e4357a57432a3549eb9218781de4da40a82e4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 17/22] fix: TransformedPrimitive::intersect reports the
 interaction in world space

---
 src/geometry/primitive.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/geometry/primitive.rs b/src/geometry/primitive.rs
index 57424ea..e9432dd 100644
--- a/src/geometry/primitive.rs
+++ b/src/geometry/primitive.rs
@@ -110,7 +110,18 @@ impl<T: Primitive> IntersectsRay for TransformedPrimitive<T> {
     fn intersect(&self, ray: Rayf) -> Option<IntersectionResult> {
         // note that "t" computed in object space is the same as in world space
         let transformed_ray = self.world_to_object(ray);
-        self.primitive.intersect(transformed_ray)
+        let result = self.primitive.intersect(transformed_ray)?;
+        let interaction = result.surface_interaction;
+        Some(IntersectionResult {
+            surface_interaction: SurfaceInteraction {
+                p: self.object_to_world(interaction.p),
+                n: self.object_to_world(interaction.n).normalize(),
+                uv: interaction.uv,
+                dpdu: self.object_to_world(interaction.dpdu),
+                dpdv: self.object_to_world(interaction.dpdv),
+            },
+            t_ray: result.t_ray,
+        })
     }
 
     fn do_intersect(&self, ray: Rayf) -> bool {
-- 
2.43.0


From 63b912c3bc61d9dfd98871d33bf7f7636f1242c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 18/22] fix: thin lens focus plane was off by the film distance

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index b5d3887..cce6e40 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -95,7 +95,7 @@ impl Camera for ThinLensCamera {
         );
 
         // find t at z = -focal_distance
-        let t = -self.focal_distance / film_to_lens.direction.z();
+        let t = (-self.focal_distance - p_film.z()) / film_to_lens.direction.z();
         let p_at_focal_plane = film_to_lens.eval(t);
 
         // now the result is a ray passing from p_lens to p_at_focal_plane
-- 
2.43.0


From 143bfdcc008a7a87dbc1eaaa877e7929c3f73ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:21 +0000
Subject: [PATCH 19/22] fix: thin lens film width for the given field of view

---
 src/cameras/thin_lens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cameras/thin_lens.rs b/src/cameras/thin_lens.rs
index cce6e40..2be396d 100644
--- a/src/cameras/thin_lens.rs
+++ b/src/cameras/thin_lens.rs
@@ -56,7 +56,7 @@ impl ThinLensCamera {
         let film_distance = focal_distance * focal_length / (focal_distance - focal_length);
 
         // field of view h
-        let film_width = Float::half() * (fov * Float::half()).tan() * film_distance;
+        let film_width = Float::two() * (fov * Float::half()).tan() * film_distance;
         let film_height = film_width / aspect_ratio;
 
         Self {
-- 
2.43.0


From 90f67b26bf0646ee4470dc26bb04c57c168f28ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:22 +0000
Subject: [PATCH 20/22] fix: ray-box intersection for rays lying in a face
 plane

---
 src/geometry/bbox.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index 869c728..f854f67 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -135,8 +135,16 @@ impl Bbox3 {
     /// the ray
     pub fn intersect_ray(self, ray: Rayf) -> Option<(Float, Float)> {
         // should we store the reciprocal of ray.direction?
-        let tmin = (self.pmin - ray.origin) / ray.direction;
-        let tmax = (self.pmax - ray.origin) / ray.direction;
+        let mut tmin = (self.pmin - ray.origin) / ray.direction;
+        let mut tmax = (self.pmax - ray.origin) / ray.direction;
+
+        // 0/0: the ray lies in a plane bounding this slab and never leaves it
+        for i in 0..3 {
+            if tmin[i].is_nan() || tmax[i].is_nan() {
+                tmin[i] = Float::neg_infinity();
+                tmax[i] = Float::infinity();
+            }
+        }
 
         let t1 = tmin.min(tmax);
         let t2 = tmin.max(tmax);
-- 
2.43.0


From a1f0b18c68d9a02a05c12e8af1d1e2233f5a56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:11 +0000
Subject: [PATCH 21/22] fix: rays do not hit an empty box

---
 src/geometry/bbox.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index f854f67..f534d03 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -134,6 +134,11 @@ impl Bbox3 {
     /// Performs ray-box intersection and returns the intersection period of
     /// the ray
     pub fn intersect_ray(self, ray: Rayf) -> Option<(Float, Float)> {
+        // an empty box (such as the default one) has no points to hit
+        if (0..3).any(|i| self.pmin[i] > self.pmax[i]) {
+            return None;
+        }
+
         // should we store the reciprocal of ray.direction?
         let mut tmin = (self.pmin - ray.origin) / ray.direction;
         let mut tmax = (self.pmax - ray.origin) / ray.direction;
-- 
2.43.0


From 8d6339e1d8912a21e017a776e1e5819862fdb9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:16 +0000
Subject: [PATCH 22/22] fix: the image of an empty box is empty

---
 src/geometry/bbox.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/bbox.rs b/src/geometry/bbox.rs
index f534d03..dae6cdc 100644
--- a/src/geometry/bbox.rs
+++ b/src/geometry/bbox.rs
@@ -297,6 +297,11 @@ impl TransformMap<Bbox3> for Transformf {
 
 #[inline(always)]
 fn map_bbox(m: Matrix4x4f, bbox: &Bbox3) -> Bbox3 {
+    // an empty box (such as the default one) stays empty
+    if (0..3).any(|i| bbox.pmin[i] > bbox.pmax[i]) {
+        return Bbox3::default();
+    }
+
     // Graphics Gems: Transforming Axis-aligned Bounding Boxes
     // by James Arvo 1990
     let mut pmin = m.col(3);
-- 
2.43.0

