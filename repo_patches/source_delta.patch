From 863a6a89b5743ff1101d42d39d3e4bc79cf36674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 01/29] fix: update the weights of control points when adding a
 knot to a rational curve

try_add_knot interpolated the homogeneous coordinates but kept the weights,
so the shape of a curve with non-uniform weights was changed by knot insertion.
---
 src/curve/nurbs_curve.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 0db13b7..d121ad3 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1327,7 +1327,11 @@ where
                 &self.control_points[i0] - &self.control_points[i0 - 1]
             };
             let mut p = delta_control_point * (T::one() - a);
-            p[D::dim() - 1] = T::zero();
+            if i0 == 0 || i0 == self.control_points.len() {
+                // there is no neighboring control point to interpolate with outside of the curve,
+                // so keep the weight not to be zero
+                p[D::dim() - 1] = T::zero();
+            }
             self.control_points[i0].coords -= p;
         }
 
-- 
2.43.0


From f689bfa9eb68d8c8b0ebb685ab0e63cf3e70b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:50 +0000
Subject: [PATCH 02/29] fix: split a curve or surface at an existing interior
 knot

Inserting degree + 1 more copies of a knot that is already there raised its
multiplicity above degree + 1 and the halves evaluated to NaN.
---
 src/split/mod.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 8fde919..4c831ae 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -3,6 +3,7 @@ use nalgebra::{allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, Dim
 
 use crate::{
     curve::NurbsCurve,
+    knot::KnotVector,
     misc::{transpose_control_points, FloatingPoint},
     surface::{NurbsSurface, UVDirection},
 };
@@ -42,12 +43,13 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
-        let knots_to_insert = (0..=self.degree()).map(|_| u).collect_vec();
+        let mult = interior_multiplicity(self.knots(), self.degree(), u);
+        let knots_to_insert = (mult..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
         cloned.try_refine_knot(knots_to_insert)?;
 
         let n = self.knots().len() - self.degree() - 2;
-        let s = self.knots().find_knot_span_index(n, self.degree(), u);
+        let s = self.knots().find_knot_span_index(n, self.degree(), u) - mult;
         let knots0 = cloned.knots().as_slice()[0..=(s + self.degree() + 1)].to_vec();
         let knots1 = cloned.knots().as_slice()[s + 1..].to_vec();
         let cpts0 = cloned.control_points()[0..=s].to_vec();
@@ -59,6 +61,17 @@ where
     }
 }
 
+/// Count the knots already placed at the parameter if it lies strictly inside of the domain.
+/// They must not be inserted again, or the multiplicity would exceed `degree + 1`.
+fn interior_multiplicity<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> usize {
+    let (start, end) = knots.domain(degree);
+    if start < u && u < end {
+        knots.iter().filter(|k| **k == u).count()
+    } else {
+        0
+    }
+}
+
 /// Option for splitting a surface
 #[derive(Clone, Debug)]
 pub struct SplitSurfaceOption<T: FloatingPoint> {
@@ -98,10 +111,11 @@ where
             }
         };
 
-        let knots_to_insert = (0..=degree).map(|_| option.parameter).collect_vec();
+        let mult = interior_multiplicity(knots, degree, option.parameter);
+        let knots_to_insert = (mult..=degree).map(|_| option.parameter).collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter);
+        let s = knots.find_knot_span_index(n, degree, option.parameter) - mult;
 
         let curves = points
             .iter()
-- 
2.43.0


From b74593254df060b844c187812245d95672b42285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 03/29] fix: elevate the degree of curves with more than one
 span

try_elevate_degree underflowed when the degree was raised by less than the
index of a Bezier coefficient, kept the untrimmed work buffers as control
points and knots, and deviated from the algorithm when removing interior knots.
---
 src/curve/nurbs_curve.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index d121ad3..3f06daf 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1110,7 +1110,9 @@ where
 
         //intermediate values
         let mut bezalfs = vec![vec![T::zero(); new_degree + 1]; new_degree + degree_inc + 1];
-        let new_control_point_count = control_points.len() + degree_inc + 3;
+        // the degree of every span increases by `degree_inc`
+        let span_count = n + 1 - new_degree;
+        let new_control_point_count = control_points.len() + degree_inc * span_count + 3;
         let mut bpts = vec![OPoint::origin(); new_control_point_count];
         let mut e_bpts = vec![OPoint::origin(); new_control_point_count];
         let mut next_bpts = vec![OPoint::origin(); new_control_point_count];
@@ -1133,19 +1135,19 @@ where
         for i in 1..=ph2 {
             let inv = T::one() / binom.get(ph, i);
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = inv * binom.get(new_degree, j) * binom.get(degree_inc, i - j);
             }
         }
 
         for i in (ph2 + 1)..ph {
             let mpi = new_degree.min(i);
-            for j in 0.max(i - degree_inc)..=mpi {
+            for j in i.saturating_sub(degree_inc)..=mpi {
                 bezalfs[i][j] = bezalfs[ph - i][new_degree - j];
             }
         }
 
-        let mh = ph;
+        let mut mh = ph;
         let mut kind = ph + 1;
         let mut r: isize = -1;
         let mut a = new_degree;
@@ -1165,7 +1167,7 @@ where
                 b += 1;
             }
             let mul = b - i + 1;
-            let _mh = mh + mul + degree_inc;
+            mh += mul + degree_inc;
             let ub = knots[b];
             let oldr = r;
             r = new_degree as isize - mul as isize;
@@ -1178,11 +1180,7 @@ where
                 1
             };
             let rbz = if r > 0 {
-                (T::from_usize(ph).unwrap()
-                    - T::from_isize(r + 1).unwrap() / T::from_f64(2.).unwrap())
-                .floor()
-                .to_usize()
-                .unwrap()
+                ph - (r as usize + 1) / 2
             } else {
                 ph
             };
@@ -1209,7 +1207,7 @@ where
             for i in lbz..=ph {
                 e_bpts[i] = OPoint::origin();
                 let mpi = new_degree.min(i);
-                for j in 0.max(i - degree_inc)..=mpi {
+                for j in i.saturating_sub(degree_inc)..=mpi {
                     e_bpts[i].coords = &e_bpts[i].coords + &bpts[j].coords * bezalfs[i][j];
                 }
             }
@@ -1233,9 +1231,9 @@ where
                             if (j as isize) - tr <= (kind as isize - ph as isize + oldr) {
                                 let gam = (ub - u_h[j - utr]) / den;
                                 e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - gam);
+                            } else {
+                                e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                             }
-                        } else {
-                            e_bpts[kj] = e_bpts[kj].lerp(&e_bpts[kj + 1], T::one() - bet);
                         }
                         i += 1;
                         j -= 1;
@@ -1274,6 +1272,10 @@ where
             }
         }
 
+        // trim the buffers to the actual size of the elevated curve
+        q_w.truncate(mh - ph);
+        u_h.truncate(mh + 1);
+
         Ok(Self {
             degree: target_degree,
             control_points: q_w,
-- 
2.43.0


From cc5005f7e208d8e3d7567d114305a90b382c685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 04/29] fix: remove knots with a multiplicity greater than one

The removal algorithm needs the last index of the knot. With the first one it
underflowed or refused to remove repeated knots; the end knots are refused now.
---
 src/curve/nurbs_curve.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 3f06daf..d443033 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1374,8 +1374,8 @@ where
         let r = self
             .knots
             .iter()
-            .position(|k| *k == knot)
-            .ok_or(anyhow::anyhow!("Knot not found"))?; // index of the knot
+            .rposition(|k| *k == knot)
+            .ok_or(anyhow::anyhow!("Knot not found"))?; // last index of the knot
 
         let multiplicities = self.knots.multiplicity();
         let mult = multiplicities
@@ -1391,6 +1391,9 @@ where
                 "Knot is too close to the start of the curve"
             ));
         }
+        if r > n {
+            return Err(anyhow::anyhow!("Knot is too close to the end of the curve"));
+        }
         let mut first = r - p;
 
         if r <= s {
-- 
2.43.0


From 4b28b90153c1cd84a1e1ae5709831f43eb1a4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:03 +0000
Subject: [PATCH 05/29] fix: size the derivative table of a surface by the
 requested order

derivatives_given_bases_knot_spans allocated it with the u and v degrees
swapped and truncated, so sampling second derivatives of a surface whose
degrees differ indexed out of bounds.
---
 src/surface/nurbs_surface.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 0b380f7..a833d92 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -330,7 +330,7 @@ where
         } else {
             self.v_degree
         };
-        let mut skl = vec![vec![OVector::<T, D>::zeros(); du + 1]; dv + 1];
+        let mut skl = vec![vec![OVector::<T, D>::zeros(); derivs + 1]; derivs + 1];
 
         for k in 0..=du {
             let mut temp = vec![];
-- 
2.43.0


From 76f3f4bb1d8d17c9281a70ffc26425df6163c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 06/29] fix: take the isocurve at a repeated interior knot from
 the right control points

With two or more copies of the knot, the span index points past the control
points where the surface interpolates the parameter.
---
 src/surface/nurbs_surface.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index a833d92..96d8c69 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -789,7 +789,10 @@ where
                 UVDirection::V => refined.control_points[0].len() - 1,
             }
         } else {
+            // the span index is that of the last knot at `t`, the multiplicity of which is
+            // `degree + 1 - knots_to_insert`
             knots.find_knot_span_index(knots.len() - degree - 2, degree, t)
+                - degree.saturating_sub(knots_to_insert)
         };
 
         match direction {
-- 
2.43.0


From 11f62ab3985bce9175fec125982d5a503d3a8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 07/29] fix: look up the west neighbour of a tessellation node
 by its u index

---
 src/tessellation/surface.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index c97cb57..aa1f57e 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -173,7 +173,7 @@ where
                 let s = south(index, iv, divs_u, divs_v);
                 let e = east(index, iu, divs_u);
                 let n = north(index, iv, divs_u);
-                let w = west(index, iv);
+                let w = west(index, iu);
                 AdaptiveTessellationNode::new(index, corners, [s, e, n, w])
             })
         })
@@ -221,8 +221,8 @@ fn east(index: usize, iu: usize, divs_u: usize) -> Option<usize> {
     }
 }
 
-fn west(index: usize, iv: usize) -> Option<usize> {
-    if iv == 0 {
+fn west(index: usize, iu: usize) -> Option<usize> {
+    if iu == 0 {
         None
     } else {
         Some(index - 1)
-- 
2.43.0


From 4ffa2babd973a95f29ea84c12dfc40550c3d2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 08/29] fix: apply the boundary constraints at the maximum ends
 of a surface's domain

---
 src/tessellation/surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index aa1f57e..227e90a 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -140,14 +140,14 @@ where
         .enumerate()
         .map(|(iv, v)| {
             let u_min = iv == 0;
-            let u_max = iv == divs_v - 1;
+            let u_max = iv == divs_v;
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
                 let ds = s.rational_derivatives(*u, *v, 1);
                 let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
-                let v_max = iu == divs_u - 1;
+                let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
                 SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
                     .with_constraints(u_constraint, v_constraint)
-- 
2.43.0


From a2b7dfb09494867a72f466a349fd6da9cbc90c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:59 +0000
Subject: [PATCH 09/29] fix: do not normalise a vanishing normal when
 tessellating a surface

---
 src/tessellation/adaptive_tessellation_node.rs |  2 +-
 src/tessellation/surface.rs                    | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tessellation/adaptive_tessellation_node.rs b/src/tessellation/adaptive_tessellation_node.rs
index 359de12..3947ae0 100644
--- a/src/tessellation/adaptive_tessellation_node.rs
+++ b/src/tessellation/adaptive_tessellation_node.rs
@@ -254,7 +254,7 @@ where
 }
 
 /// Evaluate the surface at a given uv coordinate
-fn evaluate_surface<T: FloatingPoint, D>(
+pub(crate) fn evaluate_surface<T: FloatingPoint, D>(
     surface: &NurbsSurface<T, D>,
     uv: Vector2<T>,
 ) -> SurfacePoint<T, DimNameDiff<D, U1>>
diff --git a/src/tessellation/surface.rs b/src/tessellation/surface.rs
index 227e90a..a680b4a 100644
--- a/src/tessellation/surface.rs
+++ b/src/tessellation/surface.rs
@@ -2,8 +2,11 @@ use super::adaptive_tessellation_option::AdaptiveTessellationOptions;
 use super::adaptive_tessellation_processor::AdaptiveTessellationProcessor;
 use super::boundary_constraints::BoundaryConstraints;
 use super::surface_tessellation::SurfaceTessellation;
-use super::{adaptive_tessellation_node::AdaptiveTessellationNode, Tessellation};
-use super::{ConstrainedTessellation, SurfacePoint};
+use super::ConstrainedTessellation;
+use super::{
+    adaptive_tessellation_node::{evaluate_surface, AdaptiveTessellationNode},
+    Tessellation,
+};
 use itertools::Itertools;
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, Vector2, U1,
@@ -144,12 +147,10 @@ where
             let u_constraint = (u_min && u_min_constraint) || (u_max && u_max_constraint);
 
             let row = us.iter().enumerate().map(|(iu, u)| {
-                let ds = s.rational_derivatives(*u, *v, 1);
-                let norm = ds[1][0].cross(&ds[0][1]).normalize();
                 let v_min = iu == 0;
                 let v_max = iu == divs_u;
                 let v_constraint = (v_min && v_min_constraint) || (v_max && v_max_constraint);
-                SurfacePoint::new(Vector2::new(*u, *v), ds[0][0].clone().into(), norm, false)
+                evaluate_surface(s, Vector2::new(*u, *v))
                     .with_constraints(u_constraint, v_constraint)
                     .with_boundary(u_min, u_max, v_min, v_max)
             });
-- 
2.43.0


From 7231d8562da789af2f5def58392ddbe556251871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 10/29] fix: recognise the closed end of a trimming curve
 despite rounding errors

---
 src/tessellation/trimmed_surface.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tessellation/trimmed_surface.rs b/src/tessellation/trimmed_surface.rs
index 6acf354..51dce8d 100644
--- a/src/tessellation/trimmed_surface.rs
+++ b/src/tessellation/trimmed_surface.rs
@@ -25,10 +25,6 @@ impl<T: FloatingPoint> Vertex<T> {
     pub fn new(point: Point3<T>, normal: Vector3<T>, uv: Vector2<T>) -> Self {
         Self { point, normal, uv }
     }
-
-    pub fn point(&self) -> Point3<T> {
-        self.point
-    }
 }
 
 impl<T: FloatingPoint + SpadeNum> HasPosition for Vertex<T> {
@@ -157,7 +153,8 @@ fn trimmed_surface_adaptive_tessellate<T: FloatingPoint + SpadeNum>(
     let insert_constraint = |t: &mut Tri<T>, vertices: &[Vertex<T>]| {
         let skip = if let (Some(first), Some(last)) = (vertices.first(), vertices.last()) {
             // if the input vertices are closed, skip the first vertex to avoid adding a duplicate constraint
-            if first.point() == last.point() {
+            // (both ends are evaluated separately, so that they can differ by a rounding error)
+            if (first.uv - last.uv).norm_squared() < T::default_epsilon() {
                 1
             } else {
                 0
-- 
2.43.0


From 690f8e64c4035adcce30a109c6cdc957ef45cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:23 +0000
Subject: [PATCH 11/29] fix: snap the parameter of a split to a knot within
 rounding errors

---
 src/split/mod.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/split/mod.rs b/src/split/mod.rs
index 4c831ae..74cb5c6 100644
--- a/src/split/mod.rs
+++ b/src/split/mod.rs
@@ -43,6 +43,7 @@ where
     /// ```
     fn try_split(&self, u: T) -> anyhow::Result<(Self, Self)> {
         let u = self.knots().clamp(self.degree(), u);
+        let u = snap_to_knot(self.knots(), u);
         let mult = interior_multiplicity(self.knots(), self.degree(), u);
         let knots_to_insert = (mult..=self.degree()).map(|_| u).collect_vec();
         let mut cloned = self.clone();
@@ -61,6 +62,18 @@ where
     }
 }
 
+/// Move the parameter to a knot it differs from by no more than rounding errors.
+/// Splitting next to the knot would leave a span too narrow to be evaluated.
+fn snap_to_knot<T: FloatingPoint>(knots: &KnotVector<T>, u: T) -> T {
+    let eps = T::default_epsilon() * T::from_f64(8.).unwrap();
+    let size = knots.iter().fold(T::zero(), |m, k| m.max(k.abs()));
+    knots
+        .iter()
+        .find(|k| (**k - u).abs() <= eps * size)
+        .copied()
+        .unwrap_or(u)
+}
+
 /// Count the knots already placed at the parameter if it lies strictly inside of the domain.
 /// They must not be inserted again, or the multiplicity would exceed `degree + 1`.
 fn interior_multiplicity<T: FloatingPoint>(knots: &KnotVector<T>, degree: usize, u: T) -> usize {
@@ -111,11 +124,12 @@ where
             }
         };
 
-        let mult = interior_multiplicity(knots, degree, option.parameter);
-        let knots_to_insert = (mult..=degree).map(|_| option.parameter).collect_vec();
+        let u = snap_to_knot(knots, option.parameter);
+        let mult = interior_multiplicity(knots, degree, u);
+        let knots_to_insert = (mult..=degree).map(|_| u).collect_vec();
 
         let n = knots.len() - degree - 2;
-        let s = knots.find_knot_span_index(n, degree, option.parameter) - mult;
+        let s = knots.find_knot_span_index(n, degree, u) - mult;
 
         let curves = points
             .iter()
-- 
2.43.0


From 0036f7a810923b179d5cbe56b2d7350ade593902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 12/29] fix: keep both ends of the shortest ranges when
 tessellating a curve

---
 src/tessellation/tessellation_curve.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/tessellation/tessellation_curve.rs b/src/tessellation/tessellation_curve.rs
index 7a446a2..81e3951 100644
--- a/src/tessellation/tessellation_curve.rs
+++ b/src/tessellation/tessellation_curve.rs
@@ -28,7 +28,8 @@ where
         let mut rng = rand::rng();
         let tol = tolerance.unwrap_or(T::from_f64(1e-3).unwrap());
         let (start, end) = self.knots_domain();
-        tessellate_adaptive(self, start, end, tol, &mut rng)
+        let min_delta = (end - start) * T::from_f64(1e-8).unwrap();
+        tessellate_adaptive(self, start, end, tol, min_delta, &mut rng)
     }
 }
 
@@ -39,6 +40,7 @@ fn tessellate_adaptive<T: FloatingPoint, D>(
     start: T,
     end: T,
     tol: T,
+    min_delta: T,
     rng: &mut ThreadRng,
 ) -> Vec<OPoint<T, DimNameDiff<D, U1>>>
 where
@@ -47,13 +49,13 @@ where
     DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
 {
     let p1 = curve.point_at(start);
+    let p3 = curve.point_at(end);
     let delta = end - start;
-    if delta < T::from_f64(1e-8).unwrap() {
-        return vec![p1];
+    if delta < min_delta {
+        // the caller drops the last point in favor of the following range
+        return vec![p1, p3];
     }
 
-    let p3 = curve.point_at(end);
-
     let t = 0.5_f64 + 0.2_f64 * rng.random::<f64>();
     let mid = start + delta * T::from_f64(t).unwrap();
     let p2 = curve.point_at(mid);
@@ -64,8 +66,8 @@ where
         || !three_points_are_flat(&p1, &p2, &p3, tol)
     {
         let exact_mid = start + (end - start) * T::from_f64(0.5).unwrap();
-        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, rng);
-        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, rng);
+        let mut left_pts = tessellate_adaptive(curve, start, exact_mid, tol, min_delta, rng);
+        let right_pts = tessellate_adaptive(curve, exact_mid, end, tol, min_delta, rng);
         left_pts.pop();
         [left_pts, right_pts].concat()
     } else {
-- 
2.43.0


From 714e68f49a1e2cde6e023b0f7504d05fcd34a7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/29] fix: do not normalise a vanishing normal when sampling
 a surface regularly

---
 src/surface/nurbs_surface.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 96d8c69..627fca0 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -245,7 +245,13 @@ where
                     .map(|der| {
                         let v0 = &der[1][0];
                         let v1 = &der[0][1];
-                        v0.cross(v1).normalize()
+                        let norm = v0.cross(v1);
+                        // the normal vanishes where the surface degenerates, e.g. at a pole
+                        if norm.magnitude_squared() < T::default_epsilon() {
+                            norm
+                        } else {
+                            norm.normalize()
+                        }
                     })
                     .collect()
             })
-- 
2.43.0


From f374b3f35a2e0ee83602211dfada013c1fe9f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:53 +0000
Subject: [PATCH 14/29] fix: containment of points level with joints or cusps
 of the boundary

---
 src/contains/contains_compound_curve.rs | 10 +---
 src/contains/contains_curve.rs          | 73 ++++++++++++++++++++-----
 2 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/src/contains/contains_compound_curve.rs b/src/contains/contains_compound_curve.rs
index 1b43f01..97c03f2 100644
--- a/src/contains/contains_compound_curve.rs
+++ b/src/contains/contains_compound_curve.rs
@@ -2,7 +2,7 @@ use argmin::core::ArgminFloat;
 use nalgebra::{Const, Point2};
 
 use crate::{
-    contains::contains_curve::x_ray_intersection,
+    contains::contains_curve::count_x_ray_crossings,
     misc::FloatingPoint,
     prelude::{BoundingBox, CurveIntersectionSolverOptions},
     region::CompoundCurve,
@@ -56,13 +56,7 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for CompoundCurve<T,
 
         let size = bb.size();
         let sx = size.x * T::from_f64(2.).unwrap();
-        let intersections: anyhow::Result<Vec<_>> = self
-            .spans()
-            .iter()
-            .map(|span| x_ray_intersection(span, point, sx, option.clone()))
-            .collect();
-
-        let count = intersections?.iter().map(|its| its.len()).sum::<usize>();
+        let count = count_x_ray_crossings(self.spans(), point, sx, option)?;
         Ok(count % 2 == 1)
     }
 }
diff --git a/src/contains/contains_curve.rs b/src/contains/contains_curve.rs
index fcdfc0f..26392d8 100644
--- a/src/contains/contains_curve.rs
+++ b/src/contains/contains_curve.rs
@@ -55,25 +55,68 @@ impl<T: FloatingPoint + ArgminFloat> Contains<T, Const<2>> for NurbsCurve<T, Con
         let size = bb.size();
 
         // curve & ray intersections
-        match x_ray_intersection(self, point, size.x * T::from_f64(2.).unwrap(), option) {
-            Ok(its) => Ok(its.len() % 2 == 1),
-            Err(e) => Err(e),
+        let count = count_x_ray_crossings(
+            std::slice::from_ref(self),
+            point,
+            size.x * T::from_f64(2.).unwrap(),
+            option,
+        )?;
+        Ok(count % 2 == 1)
+    }
+}
+
+/// Count the crossings of the connected curves with the ray cast from the point to the right.
+///
+/// Where a curve ends or gets divided exactly level with the ray, rounding may turn the crossing
+/// into none or two. The point keeps the minimum distance from the curves,
+/// so a ray moved up or down by less than that is as good as the original one.
+pub fn count_x_ray_crossings<T: FloatingPoint + ArgminFloat>(
+    curves: &[NurbsCurve<T, U3>],
+    point: &Point2<T>,
+    ray_length: T,
+    option: Option<CurveIntersectionSolverOptions<T>>,
+) -> anyhow::Result<usize> {
+    let distance = option
+        .as_ref()
+        .map(|opt| opt.minimum_distance)
+        .unwrap_or(T::from_f64(1e-6).unwrap());
+    let mut count = 0;
+    for offset in [0., 0.5, -0.4, 0.3, -0.2, 0.1] {
+        let origin = point + Vector2::y() * (distance * T::from_f64(offset).unwrap());
+        let mut level = false;
+        count = 0;
+        for curve in curves {
+            let (its, lv) = x_ray_intersection(curve, &origin, ray_length, option.clone())?;
+            count += its.len();
+            level |= lv;
+        }
+        if !level {
+            break;
         }
     }
+    Ok(count)
 }
 
+/// Find the intersections of the curve with the ray cast from the point to the right,
+/// and whether the curve ends or gets divided level with the ray (within rounding).
 pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
     curve: &NurbsCurve<T, U3>,
     point: &Point2<T>,
     ray_length: T,
     option: Option<CurveIntersectionSolverOptions<T>>,
-) -> anyhow::Result<Vec<Point2<T>>> {
+) -> anyhow::Result<(Vec<Point2<T>>, bool)> {
     let option = option.unwrap_or_default();
+    let rounding = T::default_epsilon()
+        * T::from_f64(64.).unwrap()
+        * (Float::abs(point.x) + Float::abs(point.y) + ray_length);
+    let is_level = |p: &Point2<T>| Float::abs(p.y - point.y) < rounding;
+    let (start, end) = curve.knots_domain();
+    let mut level = is_level(&curve.point_at(start)) || is_level(&curve.point_at(end));
     let ray = NurbsCurve::polyline(&[*point, point + Vector2::x() * ray_length], true);
-    let ta = CurveBoundingBoxTree::new(
-        curve,
-        Some(curve.knots_domain_interval() / T::from_usize(option.knot_domain_division).unwrap()),
-    );
+    let tolerance =
+        curve.knots_domain_interval() / T::from_usize(option.knot_domain_division).unwrap();
+    let joint = tolerance * T::from_f64(2.).unwrap();
+    let ta = CurveBoundingBoxTree::new(curve, Some(tolerance));
     let tb = CurveBoundingBoxTree::new(
         &ray,
         Some(ray.knots_domain_interval() / T::from_usize(1).unwrap()),
@@ -88,6 +131,7 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
             let (start, end) = curve.knots_domain();
             let p_start = curve.point_at(start);
             let p_end = curve.point_at(end);
+            level |= is_level(&p_start) || is_level(&p_end);
 
             if p_start.x < point.x && p_end.x < point.x {
                 return None;
@@ -110,7 +154,7 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
                 let dy = p.y - point.y;
 
                 if Float::abs(dy) < option.minimum_distance {
-                    return Some((p, t));
+                    return Some((p, t, y_forward));
                 }
 
                 let over = dy > T::zero();
@@ -124,7 +168,7 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
 
             None
         })
-        .filter(|(p, _)| point.x <= p.x)
+        .filter(|(p, _, _)| point.x <= p.x)
         .collect_vec();
 
     intersections.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap_or(Ordering::Equal));
@@ -134,8 +178,11 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
         .into_iter()
         .coalesce(|x, y| {
             // merge intersections that are close
-            let dt = x.0 - y.0;
-            if dt.norm() < eps {
+            // (only the same crossing found twice at the joint of two adjacent pieces:
+            // crossings in opposite directions are distinct however close they are,
+            // and so are those of separate parts of the curve)
+            let delta = x.0 - y.0;
+            if x.2 == y.2 && y.1 - x.1 <= joint && delta.norm() < eps {
                 Ok(x)
             } else {
                 Err((x, y))
@@ -144,5 +191,5 @@ pub fn x_ray_intersection<T: FloatingPoint + ArgminFloat>(
         .map(|p| p.0)
         .collect_vec();
 
-    Ok(filtered)
+    Ok((filtered, level))
 }
-- 
2.43.0


From 1a7fca8f1c609635e6121f108a5d25eb2b48af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 15/29] fix: recognise closed curves away from the unit scale

---
 src/curve/nurbs_curve.rs     | 16 +++++++++++++++-
 src/region/compound_curve.rs |  6 +++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index d443033..eab5269 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1567,7 +1567,7 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        let eps = self.closing_tolerance();
         match self.knots.is_clamped(self.degree) {
             true => {
                 let pts = self.dehomogenized_control_points();
@@ -1584,6 +1584,20 @@ where
         }
     }
 
+    /// The distance between the start and the end of the curve up to which it is closed:
+    /// a few rounding errors of its coordinates.
+    pub(crate) fn closing_tolerance(&self) -> T
+    where
+        D: DimNameSub<U1>,
+        DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+    {
+        let scale = self
+            .dehomogenized_control_points()
+            .iter()
+            .fold(T::one(), |a, p| RealField::max(a, p.coords.amax()));
+        T::default_epsilon() * T::from_usize(10).unwrap() * scale
+    }
+
     /// Try to refine the curve by inserting knots
     pub fn try_refine_knot(&mut self, knots_to_insert: Vec<T>) -> anyhow::Result<()> {
         if knots_to_insert.is_empty() {
diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 003e82b..35174f7 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -149,7 +149,11 @@ where
     {
         let start = self.spans.first().map(|s| s.point_at(s.knots_domain().0));
         let end = self.spans.last().map(|s| s.point_at(s.knots_domain().1));
-        let eps = T::default_epsilon() * T::from_usize(10).unwrap();
+        let eps = self
+            .spans
+            .iter()
+            .map(|span| span.closing_tolerance())
+            .fold(T::zero(), |a, b| if b > a { b } else { a });
         match (start, end) {
             (Some(start), Some(end)) => {
                 let delta = start - end;
-- 
2.43.0


From 39419b1b271b8bd040464735f46bbfb9f0171432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:44 +0000
Subject: [PATCH 16/29] fix: closest parameter search stays in the domain and
 never moves away

---
 .../curve_closest_parameter_newton.rs         | 62 +++++++++++++------
 .../curve_closest_parameter_problem.rs        | 17 ++++-
 .../surface_closest_parameter_newton.rs       |  7 ++-
 src/curve/nurbs_curve.rs                      |  4 +-
 4 files changed, 65 insertions(+), 25 deletions(-)

diff --git a/src/closest_parameter/curve_closest_parameter_newton.rs b/src/closest_parameter/curve_closest_parameter_newton.rs
index 1b4b7de..4bc1918 100644
--- a/src/closest_parameter/curve_closest_parameter_newton.rs
+++ b/src/closest_parameter/curve_closest_parameter_newton.rs
@@ -44,7 +44,9 @@ where
 
 impl<O, F> Solver<O, IterState<F, F, (), F, (), F>> for CurveClosestParameterNewton<F, F>
 where
-    O: Gradient<Param = F, Gradient = F> + Hessian<Param = F, Hessian = F>,
+    O: CostFunction<Param = F, Output = F>
+        + Gradient<Param = F, Gradient = F>
+        + Hessian<Param = F, Hessian = F>,
     F: Clone + ArgminFloat,
 {
     const NAME: &'static str = "Closest parameter newton method";
@@ -62,27 +64,28 @@ where
             )
         ))?;
 
-        let grad = problem.gradient(param)?;
-        let hessian = problem.hessian(param)?;
-        let inv = F::one() / hessian;
-        let new_param = *param - self.gamma * inv * grad;
+        let param = *param;
 
-        // Constrain the parameter to the domain
-        let new_param = if new_param < self.knot_domain.0 {
-            if self.closed {
-                self.knot_domain.1 - (new_param - self.knot_domain.0)
-            } else {
-                self.knot_domain.0
+        let cost = problem.cost(&param)?;
+        let grad = problem.gradient(&param)?;
+        let hessian = problem.hessian(&param)?;
+
+        // Step towards the point, shorter until the distance does not grow any more
+        // (the step does not exist where both the gradient and the hessian are vanishing)
+        let acceptable = cost * (float!(1.0) + float!(4.0) * F::epsilon());
+        let mut step = -self.gamma * grad / hessian.abs();
+        let mut new_param = param;
+        for _ in 0..16 {
+            if !step.is_finite() {
+                break;
             }
-        } else if new_param > self.knot_domain.1 {
-            if self.closed {
-                self.knot_domain.0 + (new_param - self.knot_domain.1)
-            } else {
-                self.knot_domain.1
+            let candidate = constrain(param + step, self.knot_domain, self.closed);
+            if problem.cost(&candidate)? <= acceptable {
+                new_param = candidate;
+                break;
             }
-        } else {
-            new_param
-        };
+            step = step * float!(0.5);
+        }
 
         Ok((state.param(new_param), None))
     }
@@ -105,3 +108,24 @@ where
         }
     }
 }
+
+/// Constrain the parameter to the domain, around which a closed curve leads
+fn constrain<F: ArgminFloat>(parameter: F, domain: (F, F), closed: bool) -> F {
+    let (start, end) = domain;
+    let wrapped = if !closed {
+        parameter
+    } else if parameter < start {
+        end - (start - parameter)
+    } else if parameter > end {
+        start + (parameter - end)
+    } else {
+        parameter
+    };
+    if wrapped < start {
+        start
+    } else if wrapped > end {
+        end
+    } else {
+        wrapped
+    }
+}
diff --git a/src/closest_parameter/curve_closest_parameter_problem.rs b/src/closest_parameter/curve_closest_parameter_problem.rs
index 693be46..bdf14bb 100644
--- a/src/closest_parameter/curve_closest_parameter_problem.rs
+++ b/src/closest_parameter/curve_closest_parameter_problem.rs
@@ -1,4 +1,4 @@
-use argmin::core::{Gradient, Hessian};
+use argmin::core::{CostFunction, Gradient, Hessian};
 use nalgebra::{
     allocator::Allocator, DefaultAllocator, DimName, DimNameDiff, DimNameSub, OPoint, U1,
 };
@@ -29,6 +29,21 @@ where
     }
 }
 
+impl<T: FloatingPoint, D: DimName> CostFunction for CurveClosestParameterProblem<'_, T, D>
+where
+    DefaultAllocator: Allocator<D>,
+    D: DimNameSub<U1>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    type Param = T;
+    type Output = T;
+
+    /// | C(u) - P |
+    fn cost(&self, param: &Self::Param) -> Result<Self::Output, anyhow::Error> {
+        Ok((self.curve.point_at(*param) - self.point).norm())
+    }
+}
+
 impl<T: FloatingPoint, D: DimName> Gradient for CurveClosestParameterProblem<'_, T, D>
 where
     DefaultAllocator: Allocator<D>,
diff --git a/src/closest_parameter/surface_closest_parameter_newton.rs b/src/closest_parameter/surface_closest_parameter_newton.rs
index 6e5468a..5f769a9 100644
--- a/src/closest_parameter/surface_closest_parameter_newton.rs
+++ b/src/closest_parameter/surface_closest_parameter_newton.rs
@@ -1,6 +1,7 @@
 use argmin::{argmin_error, argmin_error_closure, core::*, float};
 use nalgebra::{
-    allocator::Allocator, DefaultAllocator, DimNameDiff, DimNameSub, Matrix2, OVector, Vector2, U1,
+    allocator::Allocator, DefaultAllocator, DimNameDiff, DimNameSub, Matrix2, OVector, RealField,
+    Vector2, U1,
 };
 
 use crate::misc::FloatingPoint;
@@ -198,13 +199,13 @@ where
 fn constrain<T: FloatingPoint>(parameter: T, domain: (T, T), closed: bool) -> T {
     if parameter < domain.0 {
         if closed {
-            domain.1 - (parameter - domain.0)
+            RealField::max(domain.1 - (domain.0 - parameter), domain.0)
         } else {
             domain.0 + T::default_epsilon()
         }
     } else if parameter > domain.1 {
         if closed {
-            domain.0 + (parameter - domain.1)
+            RealField::min(domain.0 + (parameter - domain.1), domain.1)
         } else {
             domain.1 - T::default_epsilon()
         }
diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index eab5269..afee7c6 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1724,9 +1724,9 @@ where
 
         let solver = CurveClosestParameterNewton::new((min_u, max_u), closed);
         let res = Executor::new(CurveClosestParameterProblem::new(point, self), solver)
-            .configure(|state| state.param(u).max_iters(5))
+            .configure(|state| state.param(u).max_iters(32))
             .run()?;
-        match res.state().get_best_param().cloned() {
+        match res.state().get_param().cloned() {
             Some(t) => {
                 if t.is_finite() {
                     Ok(t)
-- 
2.43.0


From 4be65928626dd6f0336d2a09a2533ba6bc76f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:08 +0000
Subject: [PATCH 17/29] fix: compound curves grow at their head where nothing
 continues the tail

---
 src/region/compound_curve.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 35174f7..2350f4c 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -37,13 +37,29 @@ where
         let epsilon = T::from_f64(1e-4).unwrap();
 
         // Ensure the adjacent spans are connected in the forward direction.
+        // The chain grows at its tail, and at its head where nothing continues the tail.
         let mut curves = spans.clone();
         let mut connected = vec![curves.remove(0)];
         while !curves.is_empty() {
-            let current = connected.len() - 1;
-            let last = &connected[current];
-            let found = curves.iter().enumerate().find_map(|(i, c)| {
-                CurveDirection::new(last, c, epsilon).map(|direction| (i, direction))
+            let (first, last) = (&connected[0], &connected[connected.len() - 1]);
+            let single = connected.len() == 1;
+            let find = |end: &NurbsCurve<T, D>, acceptable: &dyn Fn(&CurveDirection) -> bool| {
+                curves.iter().enumerate().find_map(|(i, c)| {
+                    CurveDirection::new(end, c, epsilon)
+                        .filter(|direction| acceptable(direction))
+                        .map(|direction| (i, direction))
+                })
+            };
+            let found = find(last, &|direction| {
+                single || matches!(direction, CurveDirection::Forward | CurveDirection::Facing)
+            })
+            .or_else(|| {
+                find(first, &|direction| {
+                    matches!(
+                        direction,
+                        CurveDirection::Backward | CurveDirection::Opposite
+                    )
+                })
             });
             match found {
                 Some((index, direction)) => {
@@ -53,17 +69,13 @@ where
                             connected.push(next);
                         }
                         CurveDirection::Backward => {
-                            connected.insert(current, next);
+                            connected.insert(0, next);
                         }
                         CurveDirection::Facing => {
                             connected.push(next.inverse());
                         }
                         CurveDirection::Opposite => {
-                            if current == 0 {
-                                connected.insert(current, next.inverse());
-                            } else {
-                                println!("Cannot handle opposite direction");
-                            }
+                            connected.insert(0, next.inverse());
                         }
                     }
                 }
-- 
2.43.0


From 946029176abab5fca5c735090d3ef10f9c1133e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 18/29] fix: keep parameters increasing along a reversed
 compound curve

---
 src/region/compound_curve.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/region/compound_curve.rs b/src/region/compound_curve.rs
index 2350f4c..db5df36 100644
--- a/src/region/compound_curve.rs
+++ b/src/region/compound_curve.rs
@@ -88,14 +88,11 @@ where
 
         // Align knot vectors
         // The first knot vector starts at 0, the rest are aligned to the previous knot vector
-        let mut knot_offset = T::zero();
-        connected.iter_mut().for_each(|curve| {
-            let start = curve.knots().first();
-            curve.knots_mut().iter_mut().for_each(|v| {
-                *v = *v - start + knot_offset;
-            });
-            knot_offset = curve.knots().last();
+        let start = connected[0].knots().first();
+        connected[0].knots_mut().iter_mut().for_each(|v| {
+            *v -= start;
         });
+        align_knots(&mut connected);
 
         Self { spans: connected }
     }
@@ -286,7 +283,31 @@ where
 {
     fn invert(&mut self) {
         self.spans.iter_mut().for_each(|span| span.invert());
+        let start = self.spans.first().map(|span| span.knots_domain().0);
         self.spans.reverse();
+
+        // Keep the parameters increasing along the reversed spans
+        if let (Some(start), Some(head)) = (start, self.spans.first_mut()) {
+            let head_start = head.knots_domain().0;
+            head.knots_mut().iter_mut().for_each(|v| {
+                *v = *v - head_start + start;
+            });
+        }
+        align_knots(&mut self.spans);
+    }
+}
+
+/// Shift the knot vectors so that each domain starts where the previous one ends.
+fn align_knots<T: FloatingPoint, D: DimName>(spans: &mut [NurbsCurve<T, D>])
+where
+    DefaultAllocator: Allocator<D>,
+{
+    for i in 1..spans.len() {
+        let end = spans[i - 1].knots_domain().1;
+        let start = spans[i].knots_domain().0;
+        spans[i].knots_mut().iter_mut().for_each(|v| {
+            *v = *v - start + end;
+        });
     }
 }
 
-- 
2.43.0


From 3bcdbd7324a24baadbcade40ff8c52c1c1c1cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 19/29] fix: refine intersections where the solver stops early
 or wanders away

---
 .../curve_curve/intersection_curve_curve.rs   | 57 +++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/src/intersects/curve_curve/intersection_curve_curve.rs b/src/intersects/curve_curve/intersection_curve_curve.rs
index d40e762..6057654 100644
--- a/src/intersects/curve_curve/intersection_curve_curve.rs
+++ b/src/intersects/curve_curve/intersection_curve_curve.rs
@@ -136,6 +136,16 @@ where
                     Ok(r) => {
                         // println!("{}", r.state().get_termination_status());
                         r.state().get_best_param().and_then(|param| {
+                            // the solver stops when the cost changes little, which may be
+                            // before the curves are close enough, or far from the pieces
+                            let refined = refine(self, other, param, options.minimum_distance)
+                                .or_else(|| {
+                                    let (a, b) = (ca.knots_domain(), cb.knots_domain());
+                                    let half = T::from_f64(0.5).unwrap();
+                                    let middle = Vector2::new(a.0 + a.1, b.0 + b.1) * half;
+                                    refine(self, other, &middle, options.minimum_distance)
+                                });
+                            let param = refined.as_ref().unwrap_or(param);
                             if (a_domain.0..=a_domain.1).contains(&param[0])
                                 && (b_domain.0..=b_domain.1).contains(&param[1])
                             {
@@ -222,3 +232,50 @@ where
         Ok(pts)
     }
 }
+
+/// Refine the parameters of two curves by Gauss-Newton steps inside their domains.
+/// Returns None if the points don't get closer than the minimum distance.
+fn refine<T, D>(
+    a: &NurbsCurve<T, D>,
+    b: &NurbsCurve<T, D>,
+    param: &Vector2<T>,
+    minimum_distance: T,
+) -> Option<Vector2<T>>
+where
+    T: FloatingPoint + ArgminFloat,
+    D: DimName + DimNameSub<U1>,
+    DefaultAllocator: Allocator<D>,
+    DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
+{
+    let (a_domain, b_domain) = (a.knots_domain(), b.knots_domain());
+    // close enough to tell the results of the same intersection from others
+    let enough = minimum_distance * T::from_f64(1e-3).unwrap();
+    let mut current = *param;
+    let mut best: Option<(T, Vector2<T>)> = None;
+    for _ in 0..8 {
+        if !(a_domain.0..=a_domain.1).contains(&current[0])
+            || !(b_domain.0..=b_domain.1).contains(&current[1])
+        {
+            break;
+        }
+        let da = a.rational_derivatives(current[0], 1);
+        let db = b.rational_derivatives(current[1], 1);
+        let r = &da[0] - &db[0];
+        let distance = r.norm();
+        if best.as_ref().is_none_or(|(d, _)| distance < *d) {
+            best = Some((distance, current));
+        }
+        if distance < enough {
+            break;
+        }
+        let ab = -da[1].dot(&db[1]);
+        let hessian = Matrix2::new(da[1].dot(&da[1]), ab, ab, db[1].dot(&db[1]));
+        let gradient = Vector2::new(r.dot(&da[1]), -r.dot(&db[1]));
+        match hessian.lu().solve(&gradient) {
+            Some(step) => current -= step,
+            None => break,
+        }
+    }
+    best.filter(|(d, _)| *d < minimum_distance)
+        .map(|(_, param)| param)
+}
-- 
2.43.0


From 3dd0ffc97bdf0684b62d6e93ef0906315b2c3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 20/29] fix: elevate the degree of curves with unclamped knots

---
 src/curve/nurbs_curve.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index afee7c6..b17f22d 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -17,6 +17,7 @@ use crate::misc::transformable::Transformable;
 use crate::misc::trigonometry::segment_closest_point;
 use crate::misc::Ray;
 use crate::prelude::{CurveLengthParameter, Invertible, KnotVector};
+use crate::split::Split;
 use crate::{misc::FloatingPoint, CurveClosestParameterNewton, CurveClosestParameterProblem};
 
 use super::KnotStyle;
@@ -1102,6 +1103,14 @@ where
             return Ok(self.clone());
         }
 
+        if !self.is_clamped() {
+            // Bring the knots into the form the algorithm relies on, over the same domain.
+            let (start, end) = self.knots_domain();
+            let (_, tail) = self.try_split(start)?;
+            let (clamped, _) = tail.try_split(end)?;
+            return clamped.try_elevate_degree(target_degree);
+        }
+
         let n = self.knots.len() - self.degree - 2;
         let new_degree = self.degree;
         let knots = &self.knots;
-- 
2.43.0


From 9a2b01c5954cf9824eac5c9aed0b5bd74f97adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 21/29] fix: trim compound curves at the joints of their spans

---
 src/trim/mod.rs | 109 +++++++++++++++++++++++-------------------------
 1 file changed, 52 insertions(+), 57 deletions(-)

diff --git a/src/trim/mod.rs b/src/trim/mod.rs
index 797b2d0..7d4ac60 100644
--- a/src/trim/mod.rs
+++ b/src/trim/mod.rs
@@ -46,65 +46,60 @@ where
         );
 
         let inside = parameters.0 < parameters.1;
-        let range = min..=max;
-        let eps = T::default_epsilon();
-        let curves = self
-            .spans()
-            .iter()
-            .map(|curve| {
-                let (d0, d1) = curve.knots_domain();
+        let curves = if inside {
+            trim_spans(self.spans(), Some(min), Some(max))?
+        } else {
+            // in the same order as the curves of a trimmed single curve
+            let tail = trim_spans(self.spans(), Some(max), None)?;
+            let head = trim_spans(self.spans(), None, Some(min))?;
+            tail.into_iter().chain(head).collect_vec()
+        };
 
-                // use epsilon to avoid to trim at the terminal (start / end) of the curve
-                let curve_domain = (d0 + eps)..=(d1 - eps);
+        Ok(curves)
+    }
+}
 
-                match (curve_domain.contains(&min), curve_domain.contains(&max)) {
-                    (true, true) => {
-                        if inside {
-                            curve.try_trim_range((min, max))
-                        } else {
-                            let (head, tail) = curve.try_split(min)?;
-                            let (_, tail2) = tail.try_split(max)?;
-                            Ok(vec![head, tail2])
-                        }
-                    }
-                    (true, false) => {
-                        curve.try_split(min).map(
-                            |(head, tail)| {
-                                if inside {
-                                    vec![tail]
-                                } else {
-                                    vec![head]
-                                }
-                            },
-                        )
-                    }
-                    (false, true) => {
-                        curve.try_split(max).map(
-                            |(head, tail)| {
-                                if inside {
-                                    vec![head]
-                                } else {
-                                    vec![tail]
-                                }
-                            },
-                        )
-                    }
-                    (false, false) => {
-                        let contains = range.contains(&d0);
-                        match (inside, contains) {
-                            (true, true) => Ok(vec![curve.clone()]),
-                            (true, false) => Ok(vec![]),
-                            (false, true) => Ok(vec![]),
-                            (false, false) => Ok(vec![curve.clone()]),
-                        }
-                    }
-                }
-            })
-            .collect::<anyhow::Result<Vec<_>>>()?
-            .into_iter()
-            .flatten()
-            .collect_vec();
+/// Trim the spans to the given bounds.
+/// A span reached by no more than one of its ends is left out.
+fn trim_spans<T: FloatingPoint, D: DimName>(
+    spans: &[NurbsCurve<T, D>],
+    min: Option<T>,
+    max: Option<T>,
+) -> anyhow::Result<Vec<NurbsCurve<T, D>>>
+where
+    DefaultAllocator: Allocator<D>,
+{
+    spans
+        .iter()
+        .filter_map(|span| {
+            let (d0, d1) = span.knots_domain();
+            // use epsilon to avoid to trim at the terminal (start / end) of the curve
+            let eps = T::default_epsilon() * T::from_f64(8.).unwrap() * d0.abs().max(d1.abs());
+            let start = min.filter(|min| *min > d0 + eps);
+            let end = max.filter(|max| *max < d1 - eps);
+            if end.unwrap_or(d1) - start.unwrap_or(d0) <= eps {
+                return None;
+            }
+            Some(trim_span(span, start, end))
+        })
+        .collect()
+}
 
-        Ok(curves)
+/// Cut off what lies before the start and after the end
+fn trim_span<T: FloatingPoint, D: DimName>(
+    span: &NurbsCurve<T, D>,
+    start: Option<T>,
+    end: Option<T>,
+) -> anyhow::Result<NurbsCurve<T, D>>
+where
+    DefaultAllocator: Allocator<D>,
+{
+    let mut span = span.clone();
+    if let Some(start) = start {
+        span = span.try_split(start)?.1;
+    }
+    if let Some(end) = end {
+        span = span.try_split(end)?.0;
     }
+    Ok(span)
 }
-- 
2.43.0


From 96509a95c965dcd816ba6570b31db60231717639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:24 +0000
Subject: [PATCH 22/29] fix: measure curves with unclamped knots within their
 domain

---
 src/curve/nurbs_curve.rs | 49 +++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index b17f22d..4b9982c 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -451,33 +451,11 @@ where
         D: DimNameSub<U1>,
         DefaultAllocator: Allocator<DimNameDiff<D, U1>>,
     {
-        let mult = self.knots.multiplicity();
-        let start = mult.first().unwrap().multiplicity();
-        let end = mult.last().unwrap().multiplicity();
-
-        let segments = self.try_decompose_bezier_segments()?;
-
-        // If the start/end parts of the knot vector are not duplicated,
-        // the Bezier segments will not be generated correctly,
-        // so reduce the number of segments by the amount that falls below the required duplication degree.
-        let required_multiplicity = self.degree + 1;
-        let i = required_multiplicity.saturating_sub(start);
-        let j = if end < required_multiplicity {
-            segments.len() - (required_multiplicity - end)
-        } else {
-            segments.len()
-        };
-        let segments = &segments[i..j];
+        let segments = self.clamped_to_domain()?.try_decompose_bezier_segments()?;
 
         let (_, u) = self.knots_domain();
         let gauss = GaussLegendre::new(16 + self.degree)?;
 
-        if segments.len() <= 1 {
-            // If the curve is a single Bezier segment, compute the length directly
-            let l = compute_bezier_segment_length(self, u, &gauss);
-            return Ok(l);
-        }
-
         let length = segments
             .iter()
             .map(|s| compute_bezier_segment_length(s, u, &gauss))
@@ -514,7 +492,7 @@ where
             return Ok(self.knots_domain().0);
         }
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.clamped_to_domain()?.try_decompose_bezier_segments()?;
         let gauss = GaussLegendre::new(16 + self.degree)?;
         let tolerance = tolerance.unwrap_or(T::from_f64(1e-4).unwrap());
 
@@ -572,7 +550,7 @@ where
     {
         anyhow::ensure!(length > T::zero(), "The length must be greater than zero");
 
-        let segments = self.try_decompose_bezier_segments()?;
+        let segments = self.clamped_to_domain()?.try_decompose_bezier_segments()?;
         let lengthes = segments
             .iter()
             .map(|s| s.try_length())
@@ -586,7 +564,7 @@ where
             length
         );
 
-        let mut samples = vec![CurveLengthParameter::new(self.knots.first(), T::zero())];
+        let mut samples = vec![CurveLengthParameter::new(self.knots_domain().0, T::zero())];
 
         let mut i = 0;
         let mut lc = length;
@@ -1104,11 +1082,8 @@ where
         }
 
         if !self.is_clamped() {
-            // Bring the knots into the form the algorithm relies on, over the same domain.
-            let (start, end) = self.knots_domain();
-            let (_, tail) = self.try_split(start)?;
-            let (clamped, _) = tail.try_split(end)?;
-            return clamped.try_elevate_degree(target_degree);
+            // Bring the knots into the form the algorithm relies on.
+            return self.clamped_to_domain()?.try_elevate_degree(target_degree);
         }
 
         let n = self.knots.len() - self.degree - 2;
@@ -1776,6 +1751,18 @@ where
         Ok(())
     }
 
+    /// The same curve on the same domain with clamped knots
+    /// (unlike `try_clamp`, which extends the domain to the first and the last knots)
+    fn clamped_to_domain(&self) -> anyhow::Result<Self> {
+        if self.is_clamped() {
+            return Ok(self.clone());
+        }
+        let (start, end) = self.knots_domain();
+        let (_, tail) = self.try_split(start)?;
+        let (clamped, _) = tail.try_split(end)?;
+        Ok(clamped)
+    }
+
     /// Decompose the curve into Bezier segments
     pub fn try_decompose_bezier_segments(&self) -> anyhow::Result<Vec<Self>> {
         let mut cloned = self.clone();
-- 
2.43.0


From 08630c9a3ab95bcff86702753823f9f78f1f2fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:59 +0000
Subject: [PATCH 23/29] fix: divide curves by lengths of any size

---
 src/curve/nurbs_curve.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 4b9982c..a33767a 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -557,8 +557,12 @@ where
             .collect::<anyhow::Result<Vec<_>>>()?;
         let total = lengthes.iter().fold(T::zero(), |a, b| a + *b);
 
+        // the precision follows the given length, so that small curves are divided as evenly as large ones
+        let eps = length * T::from_f64(1e-6).unwrap();
+        let tolerance = length.min(T::one()) * T::from_f64(1e-3 * 2.5).unwrap();
+
         anyhow::ensure!(
-            total > length,
+            total + eps >= length,
             "The curve is too short to divide by the given length total:{}, given length:{}",
             total,
             length
@@ -573,8 +577,6 @@ where
         let mut acc_prev = T::zero();
 
         let gauss = GaussLegendre::new(16 + self.degree)?;
-        let eps = T::from_f64(1e-6).unwrap();
-        let tolerance = T::from_f64(1e-3 * 2.5).unwrap();
 
         while i < segments.len() {
             let current_length = lengthes[i];
@@ -1962,6 +1964,10 @@ where
     // binary search
     while (end.1 - start.1) > tolerance {
         let middle_parameter = (start.0 + end.0) * inv;
+        if middle_parameter <= start.0 || middle_parameter >= end.0 {
+            // no parameter is left in between
+            break;
+        }
         let mid = (
             middle_parameter,
             compute_bezier_segment_length(s, middle_parameter, gauss),
-- 
2.43.0


From f797e1ea7be2371cb042536e7cafed3ff06c216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 24/29] fix: refuse knots to refine that are outside of the
 domain or out of order

---
 src/curve/nurbs_curve.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index a33767a..456a435 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -1585,11 +1585,24 @@ where
     }
 
     /// Try to refine the curve by inserting knots
+    /// The knots must be in ascending order, and lie within the domain of the curve
     pub fn try_refine_knot(&mut self, knots_to_insert: Vec<T>) -> anyhow::Result<()> {
         if knots_to_insert.is_empty() {
             return Ok(());
         }
 
+        let (start, end) = self.knots_domain();
+        anyhow::ensure!(
+            knots_to_insert.iter().all(|k| *k >= start && *k <= end),
+            "Knots to insert must lie within the domain: {}..={}",
+            start,
+            end
+        );
+        anyhow::ensure!(
+            knots_to_insert.windows(2).all(|w| w[0] <= w[1]),
+            "Knots to insert must be in ascending order"
+        );
+
         let degree = self.degree;
         let control_points = &self.control_points;
 
-- 
2.43.0


From 8ca414076f70ba38ab6c22adcf7eddec322fc2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 25/29] fix: evaluate curves with repeated knots at the ends of
 the domain

---
 src/knot/knot_vector.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index e69dede..da6015b 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -156,12 +156,18 @@ impl<T: RealField + Copy> KnotVector<T> {
     /// assert_eq!(idx, 4);
     /// ```
     pub fn find_knot_span_index(&self, n: usize, degree: usize, u: T) -> usize {
-        if u > self[n + 1] - T::default_epsilon() {
-            return n;
+        // where the ends of the domain are repeated knots, step over the spans of no width
+        if u >= self[n + 1] || u > self[n + 1] - T::default_epsilon() {
+            return (degree..=n)
+                .rev()
+                .find(|i| self[*i] < self[n + 1])
+                .unwrap_or(n);
         }
 
         if u < self[degree] + T::default_epsilon() {
-            return degree;
+            return (degree..=n)
+                .find(|i| self[degree] < self[*i + 1])
+                .unwrap_or(degree);
         }
 
         // binary search
-- 
2.43.0


From f8e845b8954a2e004e29a69f11967c6028f0224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 26/29] fix: report a damaged exterior of a saved trimmed
 surface

---
 src/surface/trimmed_surface.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/surface/trimmed_surface.rs b/src/surface/trimmed_surface.rs
index 755dcde..c2c51a1 100644
--- a/src/surface/trimmed_surface.rs
+++ b/src/surface/trimmed_surface.rs
@@ -302,7 +302,7 @@ where
                             if exterior.is_some() {
                                 return Err(de::Error::duplicate_field("exterior"));
                             }
-                            exterior = map.next_value().ok();
+                            exterior = Some(map.next_value()?);
                         }
                         Field::Interiors => {
                             if interiors.is_some() {
@@ -315,7 +315,7 @@ where
 
                 Ok(Self::Value {
                     surface: surface.ok_or_else(|| de::Error::missing_field("surface"))?,
-                    exterior,
+                    exterior: exterior.flatten(),
                     interiors: interiors.ok_or_else(|| de::Error::missing_field("interiors"))?,
                 })
             }
-- 
2.43.0


From 05a2df5c0d22483022e14986cd244308e7e177d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 27/29] fix: refuse saved curves and surfaces whose parts do
 not fit

---
 src/curve/nurbs_curve.rs     | 13 +++++++++++--
 src/knot/knot_vector.rs      |  8 ++++++++
 src/surface/nurbs_surface.rs | 18 ++++++++++++++++--
 3 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/curve/nurbs_curve.rs b/src/curve/nurbs_curve.rs
index 456a435..bd933cd 100644
--- a/src/curve/nurbs_curve.rs
+++ b/src/curve/nurbs_curve.rs
@@ -2360,11 +2360,20 @@ where
                 let degree = degree.ok_or_else(|| de::Error::missing_field("degree"))?;
                 let knots = knots.ok_or_else(|| de::Error::missing_field("knots"))?;
 
-                Ok(Self::Value {
+                let curve = Self::Value {
                     control_points,
                     degree,
                     knots,
-                })
+                };
+                if !curve
+                    .knots
+                    .is_valid_for(curve.degree, curve.control_points.len())
+                {
+                    return Err(de::Error::custom(
+                        "degree, control points and knots do not make a curve",
+                    ));
+                }
+                Ok(curve)
             }
         }
 
diff --git a/src/knot/knot_vector.rs b/src/knot/knot_vector.rs
index da6015b..5b458d5 100644
--- a/src/knot/knot_vector.rs
+++ b/src/knot/knot_vector.rs
@@ -42,6 +42,14 @@ impl<T: RealField + Copy> KnotVector<T> {
         self.0.is_empty()
     }
 
+    /// Check that the knots, in order, are as many as the degree and the number of control points require
+    #[cfg(feature = "serde")]
+    pub(crate) fn is_valid_for(&self, degree: usize, control_points: usize) -> bool {
+        degree < control_points
+            && self.len() == control_points + degree + 1
+            && self.0.windows(2).all(|w| w[0] <= w[1])
+    }
+
     pub fn to_vec(&self) -> Vec<T> {
         self.0.clone()
     }
diff --git a/src/surface/nurbs_surface.rs b/src/surface/nurbs_surface.rs
index 627fca0..7c286ff 100644
--- a/src/surface/nurbs_surface.rs
+++ b/src/surface/nurbs_surface.rs
@@ -1657,13 +1657,27 @@ where
                 let u_knots = u_knots.ok_or_else(|| de::Error::missing_field("u_knots"))?;
                 let v_knots = v_knots.ok_or_else(|| de::Error::missing_field("v_knots"))?;
 
-                Ok(Self::Value {
+                let surface = Self::Value {
                     control_points,
                     u_degree,
                     v_degree,
                     u_knots,
                     v_knots,
-                })
+                };
+                let u_count = surface.control_points.len();
+                let v_count = surface.control_points.first().map_or(0, |row| row.len());
+                if !surface.u_knots.is_valid_for(surface.u_degree, u_count)
+                    || !surface.v_knots.is_valid_for(surface.v_degree, v_count)
+                    || surface
+                        .control_points
+                        .iter()
+                        .any(|row| row.len() != v_count)
+                {
+                    return Err(de::Error::custom(
+                        "degrees, control points and knots do not make a surface",
+                    ));
+                }
+                Ok(surface)
             }
         }
 
-- 
2.43.0


From 1af6c3f4fc006faaf6fe21da211836d5d71acaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 28/29] fix: holes enclosed by a union of curves are interiors
 of the result

---
 src/boolean/clip.rs | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/boolean/clip.rs b/src/boolean/clip.rs
index fb04904..d81b390 100644
--- a/src/boolean/clip.rs
+++ b/src/boolean/clip.rs
@@ -1,7 +1,7 @@
 use std::{cell::RefCell, cmp::Ordering, rc::Rc};
 
 use itertools::Itertools;
-use nalgebra::{Point2, U2, U3};
+use nalgebra::{ComplexField, Point2, U2, U3};
 
 use crate::{
     boolean::{
@@ -395,5 +395,41 @@ where
         }
     }
 
+    // The union of crossing operands is connected:
+    // its outermost loop is the exterior, and the other ones are holes enclosed by the operands.
+    if operation == BooleanOperation::Union && regions.len() > 1 {
+        let outermost = regions
+            .iter()
+            .map(|region| enclosed_area(region.exterior()))
+            .enumerate()
+            .max_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap_or(Ordering::Equal))
+            .map(|(i, _)| i);
+        if let Some(i) = outermost {
+            let mut exterior = regions.swap_remove(i);
+            exterior
+                .interiors_mut()
+                .extend(regions.into_iter().map(|region| region.into_exterior()));
+            regions = vec![exterior];
+        }
+    }
+
     Ok(Clip::new(regions, info))
 }
+
+/// The area enclosed by a closed loop, approximated with samples on its spans
+fn enclosed_area<T: FloatingPoint>(curve: &CompoundCurve<T, U3>) -> T {
+    let points = curve
+        .spans()
+        .iter()
+        .flat_map(|span| {
+            let (start, end) = span.knots_domain();
+            span.sample_regular_range(start, end, span.control_points().len() * 8)
+        })
+        .collect_vec();
+    let doubled = points
+        .iter()
+        .circular_tuple_windows()
+        .map(|(p, q)| (p - points[0]).perp(&(q - points[0])))
+        .fold(T::zero(), |sum, area| sum + area);
+    ComplexField::abs(doubled) * T::from_f64(0.5).unwrap()
+}
-- 
2.43.0


From 142cfe0cf2e716bc6e1c206eed4707600b8bfe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 29/29] fix: boolean operations of regions lose or invent parts
 of the result

---
 src/boolean/boolean_region.rs | 132 +++++++++++++++++++++-------------
 1 file changed, 82 insertions(+), 50 deletions(-)

diff --git a/src/boolean/boolean_region.rs b/src/boolean/boolean_region.rs
index 89b24cb..cd9de56 100644
--- a/src/boolean/boolean_region.rs
+++ b/src/boolean/boolean_region.rs
@@ -42,38 +42,24 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
     ) -> Self::Output {
         match operation {
             BooleanOperation::Union => {
-                let exterior =
-                    self.exterior()
-                        .boolean(BooleanOperation::Union, other, option.clone())?;
+                let mut regions = self
+                    .exterior()
+                    .boolean(BooleanOperation::Union, other, option.clone())?
+                    .into_regions();
+                anyhow::ensure!(!regions.is_empty(), "No exterior region found");
 
-                let exterior = exterior
-                    .into_regions()
-                    .into_iter()
-                    .next()
-                    .map(|region| region.into_exterior())
-                    .ok_or(anyhow::anyhow!("No exterior region found"))?;
-
-                let interior_differences = self
-                    .interiors()
-                    .iter()
-                    .map(|interior| {
-                        interior.boolean(BooleanOperation::Difference, other, option.clone())
-                    })
-                    .collect::<anyhow::Result<Vec<_>>>()?;
-
-                let interiors = interior_differences
-                    .into_iter()
-                    .flat_map(|c| {
-                        c.into_regions()
-                            .into_iter()
-                            .map(|region| region.into_exterior())
-                    })
-                    .collect();
+                // what is left of the interiors lies in the exterior, which comes first
+                for interior in self.interiors() {
+                    let rest =
+                        interior.boolean(BooleanOperation::Difference, other, option.clone())?;
+                    for region in rest.into_regions() {
+                        let (hole, islands) = region.into_tuple();
+                        regions[0].interiors_mut().push(hole);
+                        regions.extend(islands.into_iter().map(Region::from));
+                    }
+                }
 
-                Ok(Clip::new(
-                    vec![Region::new(exterior, interiors)],
-                    Default::default(),
-                ))
+                Ok(Clip::new(regions, Default::default()))
             }
             BooleanOperation::Intersection => {
                 // difference other and interiors
@@ -81,15 +67,9 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
                 for it in self.interiors().iter() {
                     let mut next_clips = vec![];
                     for clip in clip_regions.iter() {
+                        // the interiors of the clip are taken into account by the difference
                         let c = clip.boolean(BooleanOperation::Difference, it, option.clone())?;
-                        let mut regions = c.into_regions();
-                        let mut interiors = clip.interiors().iter().cloned().collect_vec();
-                        distribute_interiors_to_regions(
-                            &mut regions,
-                            &mut interiors,
-                            option.clone(),
-                        )?;
-                        next_clips.extend(regions);
+                        next_clips.extend(c.into_regions());
                     }
                     clip_regions = next_clips;
                 }
@@ -121,14 +101,28 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
                 // union other and interiors
                 let mut current_clip: CompoundCurve<T, U3> = other.clone();
                 let mut interiors = vec![];
+                let mut pockets: Vec<Region<T>> = vec![];
 
                 for interior in self.interiors() {
+                    // pockets enclosed by the clip and the former interiors lose this interior
+                    let mut next_pockets = vec![];
+                    for pocket in pockets {
+                        let rest = pocket.boolean(
+                            BooleanOperation::Difference,
+                            interior,
+                            option.clone(),
+                        )?;
+                        next_pockets.extend(rest.into_regions());
+                    }
+                    pockets = next_pockets;
+
                     let union =
                         current_clip.boolean(BooleanOperation::Union, interior, option.clone())?;
                     let mut regions_iter = union.into_regions().into_iter();
-                    let head = regions_iter.next();
-                    if let Some(head) = head {
-                        current_clip = head.into_exterior();
+                    if let Some(head) = regions_iter.next() {
+                        let (exterior, enclosed) = head.into_tuple();
+                        current_clip = exterior;
+                        pockets.extend(enclosed.into_iter().map(Region::from));
                     }
                     regions_iter.for_each(|region| interiors.push(region.into_exterior()));
                 }
@@ -138,8 +132,20 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a CompoundCurve<T, U3>> for R
                     &current_clip,
                     option.clone(),
                 )?;
-                let mut regions = clip.into_regions();
+
+                // the pockets remain as far as they lie in the exterior
+                let mut regions = vec![];
+                for pocket in pockets {
+                    let rest = pocket.boolean(
+                        BooleanOperation::Intersection,
+                        self.exterior(),
+                        option.clone(),
+                    )?;
+                    regions.extend(rest.into_regions());
+                }
+                regions.extend(clip.into_regions());
                 distribute_interiors_to_regions(&mut regions, &mut interiors, option.clone())?;
+
                 Ok(Clip::new(regions, Default::default()))
             }
         }
@@ -162,14 +168,38 @@ impl<'a, T: FloatingPoint + ArgminFloat> Boolean<&'a Region<T>> for Region<T> {
 
         for interior in other.interiors().iter() {
             match operation {
-                BooleanOperation::Union | BooleanOperation::Intersection => {
+                BooleanOperation::Union => {
+                    // the part of the interior which is not covered by self remains empty
+                    let interior: Region<T> = interior.clone().into();
+                    let rest =
+                        interior.boolean(BooleanOperation::Difference, self, option.clone())?;
+                    let (mut holes, islands): (Vec<_>, Vec<_>) = rest
+                        .into_regions()
+                        .into_iter()
+                        .map(|region| region.into_tuple())
+                        .unzip();
+                    let mut islands = islands
+                        .into_iter()
+                        .flatten()
+                        .map(Region::from)
+                        .collect_vec();
+                    distribute_interiors_to_regions(&mut islands, &mut holes, option.clone())?;
+                    distribute_interiors_to_regions(&mut regions, &mut holes, option.clone())?;
+                    regions.extend(islands);
+                }
+                BooleanOperation::Intersection => {
                     let clips = regions
                         .iter()
                         .map(|r| r.boolean(BooleanOperation::Difference, interior, option.clone()))
                         .collect::<anyhow::Result<Vec<_>>>()?;
                     regions = clips.into_iter().flat_map(|c| c.into_regions()).collect();
                 }
-                BooleanOperation::Difference => {}
+                BooleanOperation::Difference => {
+                    // nothing is taken away within the interior
+                    let rest =
+                        self.boolean(BooleanOperation::Intersection, interior, option.clone())?;
+                    regions.extend(rest.into_regions());
+                }
             };
         }
 
@@ -187,15 +217,17 @@ fn distribute_interiors_to_regions<T: FloatingPoint + ArgminFloat>(
         let n = interiors.len();
         for i in (0..n).rev() {
             let pt = interiors[i].first_point();
-            match region.exterior().contains(&pt, option.clone()) {
-                Ok(true) => {
+            if region.exterior().contains(&pt, option.clone())? {
+                // not within a hole of the region, where another region may lie
+                let holes = region
+                    .interiors()
+                    .iter()
+                    .map(|hole| hole.contains(&pt, option.clone()))
+                    .collect::<anyhow::Result<Vec<_>>>()?;
+                if !holes.contains(&true) {
                     let it = interiors.remove(i);
                     region.interiors_mut().push(it);
                 }
-                Ok(false) => {}
-                Err(e) => {
-                    return Err(e);
-                }
             }
         }
     }
-- 
2.43.0

