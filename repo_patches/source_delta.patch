From 42c94848b612298b5ab31bf629fd34b2193ee0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:11 +0000
Subject: [PATCH 01/36] fix: keep the lazy-exact floating filter conservative

Rational leaves were given a zero-radius ball although to_f64 truncates, and
the reciprocal bound ignored its own rounding and overflow. Either could make
sign() and comparisons return the wrong answer. Comparing -0.0 with 0.0 leaves
and converting rationals beyond the double range are handled too.
---
 src/numeric/ball.rs       | 15 ++++++++++++++-
 src/numeric/lazy_exact.rs | 21 +++++++++++++++++----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..e1fcdc8 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -46,6 +46,14 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// Ball around a double that is within one ulp of the true value.
+    #[inline]
+    pub fn from_f64_inexact(x: f64) -> Self {
+        Ball {
+            m: x,
+            r: Self::widen_ulp(x),
+        }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
@@ -101,7 +109,12 @@ impl Ball {
         }
         let denom = self.m.abs() * (self.m.abs() - self.r);
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
+        if !denom.is_normal() || !m.is_normal() {
+            // overflow/underflow: the bounds below would no longer be valid
+            return Ball::unknown();
+        }
+        // outward-bound: propagated radius plus the rounding of 1/m
+        let r = self.r / denom + Self::widen_ulp(m);
         Ball { m, r }
     }
 
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..959c80a 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -132,7 +132,7 @@ impl Scalar for LazyExact {
         let b = diff.ball_ref();
         // User “query tolerance” becomes a *margin* on top of proven radius
         let tol = CgarF64::query_tolerance().0;
-        if b.m.abs() <= b.r + tol {
+        if b.r.is_finite() && b.m.abs() <= b.r + tol {
             return true;
         }
         diff.exact().is_zero()
@@ -159,7 +159,10 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            // finite by construction; unlike total_cmp, treats -0.0 and 0.0 as equal
+            if let Some(ord) = da.partial_cmp(&db) {
+                return ord;
+            }
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
@@ -357,7 +360,7 @@ impl LazyExact {
             Kind::LeafExact(e) => {
                 if let Some(v) = e.to_f64() {
                     // accept only if round-trip is exact (dyadic)
-                    if CgarRational::from(v) == **e {
+                    if v.is_finite() && CgarRational::from(v) == **e {
                         Some(v)
                     } else {
                         None
@@ -825,7 +828,17 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => {
+                let m = e.to_f64().unwrap_or(0.0);
+                if !m.is_finite() {
+                    Ball::unknown()
+                } else if CgarRational::from(m) == **e {
+                    Ball::from_f64(m)
+                } else {
+                    // to_f64 truncates: the value is within one ulp of m
+                    Ball::from_f64_inexact(m)
+                }
+            }
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From f3aa8b846cb49cf371a9fbf75f02afd80efecf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:45 +0000
Subject: [PATCH 02/36] fix: make the rational double interval contain the
 value

to_f64 truncates, so the reported [lo, hi] missed every value that is not
itself a double.
---
 src/numeric/cgar_rational.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 6ddea2e..68a76ae 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -24,6 +24,7 @@ use num_traits::ToPrimitive;
 use rug::Rational;
 
 use crate::{
+    geometry::util::{f64_next_down, f64_next_up},
     numeric::{
         cgar_f64::CgarF64,
         lazy_exact::LazyExact,
@@ -117,7 +118,16 @@ impl Scalar for CgarRational {
     }
 
     fn double_interval(&self) -> Option<(f64, f64)> {
-        Some((self.0.to_f64(), self.0.to_f64()))
+        let m = self.0.to_f64();
+        if !m.is_finite() {
+            return None; // outside the double range
+        }
+        if Rational::from_f64(m).map_or(false, |r| r == self.0) {
+            Some((m, m))
+        } else {
+            // to_f64 truncates: the value lies within one ulp of m
+            Some((f64_next_down(m), f64_next_up(m)))
+        }
     }
 
     fn ball_center_f64(&self) -> f64 {
-- 
2.43.0


From 7e789507b7c09bc8307c84d5a256dd22462a748b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:39 +0000
Subject: [PATCH 03/36] fix: compute orientation determinants with pivoting

---
 src/kernel/orientation.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index cdb4ffe..8268fca 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -41,20 +41,32 @@ where
     let mut m: [[T; N]; N] =
         from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
 
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // running ±product of pivots
+    // 2. Fraction-free (Bareiss) elimination with row pivoting; the last pivot is the determinant
+    let mut negate = false;
+    let mut prev = T::one();
     for k in 0..N {
-        // pivot = m[k][k];  if zero, determinant is zero
-        if m[k][k].abs() == T::zero() {
+        // largest entry of the column as pivot;  if all are zero, determinant is zero
+        let mut pivot = k;
+        for i in (k + 1)..N {
+            if T::cmp_ref(&m[i][k].abs(), &m[pivot][k].abs()).is_gt() {
+                pivot = i;
+            }
+        }
+        if m[pivot][k].abs() == T::zero() {
             return T::zero();
         }
+        if pivot != k {
+            m.swap(pivot, k);
+            negate = !negate;
+        }
         for i in (k + 1)..N {
             for j in (k + 1)..N {
-                //   m[i][j] = m[i][j] * pivot - m[i][k] * m[k][j];
-                m[i][j] = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
+                //   m[i][j] = (m[i][j] * pivot - m[i][k] * m[k][j]) / previous pivot;
+                let minor = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
+                m[i][j] = if k == 0 { minor } else { minor / prev.clone() };
             }
         }
-        det = det * m[k][k].clone();
+        prev = m[k][k].clone();
     }
-    det
+    if negate { -prev } else { prev }
 }
-- 
2.43.0


From 73a45f83852c1d5877d8d9213ef349851c36f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 04/36] fix: accept the first endpoint as a point on the
 segment

---
 src/kernel/predicates.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 84d6cf3..0029101 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -135,7 +135,7 @@ where
     T: PartialOrd, // needed for comparisons inside the loop
 {
     // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(p, &seg.a, &seg.b) {
+    if !are_collinear(&seg.a, &seg.b, p) {
         return false;
     }
 
-- 
2.43.0


From 2c6d6c323301ab9ec5912a06e7fe556e7285bd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:23 +0000
Subject: [PATCH 05/36] fix: do not report points outside a triangle as lying
 on its boundary

---
 src/kernel/predicates.rs | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 0029101..53fe1df 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -27,8 +27,7 @@ use crate::geometry::util::EPS;
 use crate::geometry::vector::{Cross3, VectorOps};
 use crate::geometry::{Point2, Point3};
 use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
+use crate::numeric::scalar::Scalar;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -355,15 +354,6 @@ where
         + Mul<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
     #[inline(always)]
     fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
         let zero = TS::zero();
@@ -421,17 +411,6 @@ where
         let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
         let e2 = &(&cax * &cpy) - &(&cay * &cpx);
 
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else if N == 3 {
         // normal and degeneracy
@@ -453,15 +432,6 @@ where
         let e1 = bc.cross(&bp).dot(&n);
         let e2 = ca.cross(&cp).dot(&n);
 
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else {
         panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-- 
2.43.0


From 153607233e5ea8111c44df55bff8d26efd262ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:08 +0000
Subject: [PATCH 06/36] fix: intersect both edges as segments in
 edge_edge_intersection_2

---
 src/geometry/edge_edge_intersect.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/edge_edge_intersect.rs b/src/geometry/edge_edge_intersect.rs
index ed0bdd2..42173c8 100644
--- a/src/geometry/edge_edge_intersect.rs
+++ b/src/geometry/edge_edge_intersect.rs
@@ -44,13 +44,16 @@ where
         return None; // Parallel lines
     }
 
-    let d2 = (p1[0].clone() - p3[0].clone()) * (p4[1].clone() - p3[1].clone())
-        - (p1[1].clone() - p3[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d2 = (p3[0].clone() - p1[0].clone()) * (p4[1].clone() - p3[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d3 = (p3[0].clone() - p1[0].clone()) * (p2[1].clone() - p1[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p2[0].clone() - p1[0].clone());
 
     let t = d2 / d1.clone();
+    let u = d3 / d1;
 
     // Check if intersection is within both line segments
-    if t >= T::zero() && t <= T::one() {
+    if t >= T::zero() && t <= T::one() && u >= T::zero() && u <= T::one() {
         let x = p1[0].clone() + t.clone() * (p2[0].clone() - p1[0].clone());
         let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());
         Some(Point::<T, N>::from_vals(from_fn(|i| match i {
-- 
2.43.0


From a8137a93dc36d5de1989b5cbe31a4931960a207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:00 +0000
Subject: [PATCH 07/36] fix: report collinear segments that are disjoint or
 touch in a point

---
 src/geometry/intersection.rs | 67 ++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/src/geometry/intersection.rs b/src/geometry/intersection.rs
index 3344e35..4ff9b13 100755
--- a/src/geometry/intersection.rs
+++ b/src/geometry/intersection.rs
@@ -25,10 +25,13 @@ use crate::{
         Point2, Point3, Segment2, Segment3, Vector3, point::Point, spatial_element::SpatialElement,
         vector::VectorOps,
     },
-    kernel::{are_collinear, orient},
+    kernel::{are_collinear, are_equal, orient},
     numeric::scalar::Scalar,
 };
-use std::ops::{Add, Div, Mul, Sub};
+use std::{
+    cmp::Ordering,
+    ops::{Add, Div, Mul, Sub},
+};
 
 #[derive(Debug, Clone)]
 pub enum SegmentIntersection2<T>
@@ -64,6 +67,21 @@ where
     }
 }
 
+/// Common part of two collinear segments, ordered by x (then y then z).
+fn collinear_overlap<'a, T: Scalar, const N: usize>(
+    s1: [&'a Point<T, N>; 2],
+    s2: [&'a Point<T, N>; 2],
+) -> Option<(&'a Point<T, N>, &'a Point<T, N>)> {
+    let less =
+        |p: &Point<T, N>, q: &Point<T, N>| p.coords.partial_cmp(&q.coords) == Some(Ordering::Less);
+    let sorted = |[p, q]: [&'a Point<T, N>; 2]| if less(q, p) { (q, p) } else { (p, q) };
+    let (lo1, hi1) = sorted(s1);
+    let (lo2, hi2) = sorted(s2);
+    let lo = if less(lo1, lo2) { lo2 } else { lo1 };
+    let hi = if less(hi1, hi2) { hi1 } else { hi2 };
+    if less(hi, lo) { None } else { Some((lo, hi)) }
+}
+
 pub fn segment_segment_intersection_2<T>(
     seg1: &Segment2<T>,
     seg2: &Segment2<T>,
@@ -121,20 +139,11 @@ where
         // Collinear case
         if are_collinear(&a, &b, &c) {
             // Compute overlapping segment
-            let mut pts = [a, b, c, d];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-
-            let s = Segment2::new(&pts[1], &pts[2]);
-            return SegmentIntersection2::Overlapping(s);
+            return match collinear_overlap([a, b], [c, d]) {
+                None => SegmentIntersection2::None,
+                Some((p, q)) if are_equal(p, q) => SegmentIntersection2::Point(p.clone()),
+                Some((p, q)) => SegmentIntersection2::Overlapping(Segment2::new(p, q)),
+            };
         }
     }
 
@@ -219,27 +228,11 @@ where
     } else {
         // Segments are parallel — handle collinear case
         if are_collinear(p1, p2, q1) {
-            // Sort points by x (then y then z)
-            let mut pts = [p1, p2, q1, q2];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-                    .then(
-                        p1[2]
-                            .partial_cmp(&p2[2])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-            return SegmentIntersection3::Overlapping(Segment3 {
-                a: pts[1].clone(),
-                b: pts[2].clone(),
-            });
+            return match collinear_overlap([p1, p2], [q1, q2]) {
+                None => SegmentIntersection3::None,
+                Some((p, q)) if are_equal(p, q) => SegmentIntersection3::Point(p.clone()),
+                Some((p, q)) => SegmentIntersection3::Overlapping(Segment3::new(p, q)),
+            };
         }
 
         return SegmentIntersection3::None;
-- 
2.43.0


From d2ba743e303c5b5a9ff29120211057b57814ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:09 +0000
Subject: [PATCH 08/36] fix: never project a triangle along an axis its normal
 is orthogonal to

---
 src/geometry/tri_tri_intersect.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 4456f51..a3a7bdd 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -621,6 +621,15 @@ where
     } else {
         (0, 1, 2)
     };
+    if n[drop].is_zero() {
+        // approximations unavailable: any axis with a nonzero component keeps the projection valid
+        if !n[0].is_zero() {
+            return (1, 2, 0);
+        } else if !n[1].is_zero() {
+            return (0, 2, 1);
+        }
+        return (0, 1, 2);
+    }
     (i0, i1, drop)
 }
 
-- 
2.43.0


From 870c7faeec0fbe39778080f942a2920b3ea7f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:06 +0000
Subject: [PATCH 09/36] fix: place coplanar triangle intersections on the
 triangles' plane

---
 src/geometry/tri_tri_intersect.rs | 49 +++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index a3a7bdd..9cf28ef 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -174,6 +174,7 @@ where
 
     // 2) build 2D points
     let to2d = |p: &Point<T, N>| project_to_2d(p, i0, i1);
+    let lift = |r: &Point2<T>| lift_to_plane(r, i0, i1, drop, p[2], n);
     let t1 = [to2d(&p[2]), to2d(&p[0]), to2d(&p[1])];
     let t2 = [to2d(&q[2]), to2d(&q[0]), to2d(&q[1])];
 
@@ -181,12 +182,12 @@ where
     let mut pts: Vec<Point<T, N>> = Vec::new();
     for point in &t1 {
         if point_in_tri_2d(point, &t2) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, p[2]));
+            pts.push(lift(point));
         }
     }
     for point in &t2 {
         if point_in_tri_2d(point, &t1) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, q[2]));
+            pts.push(lift(point));
         }
     }
 
@@ -196,8 +197,7 @@ where
     for (a, b) in &edges1 {
         for (c, d) in &edges2 {
             if let Some(s) = segment_intersect_2d(a, b, c, d) {
-                // Here we use p0 as the reference for the dropped axis, but you could interpolate if desired
-                pts.push(back_project_to_3d(&s.a, i0, i1, drop, &p[2]));
+                pts.push(lift(&s.a));
             }
         }
     }
@@ -218,21 +218,20 @@ where
     }
 
     match uniq.len() {
+        1 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[0])),
         2 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[1])),
         m if m >= 3 => {
             // 1) project all uniq back to 2D
             let to2d = |p: &Point<T, N>| project_to_2d(p, i0, i1);
-            let mut pts2d: Vec<Point2<T>> = uniq.iter().map(to2d).collect();
+            let pts2d: Vec<Point2<T>> = uniq.iter().map(to2d).collect();
             // 2) compute 2D convex hull indices (e.g. monotone‐chain)
-            let hull_idx = convex_hull_2d_indices(&mut pts2d);
+            let hull_idx = convex_hull_2d_indices(&pts2d);
             // 3) turn hull edges back into 3D segments
             let mut segs = Vec::with_capacity(hull_idx.len());
             for w in 0..hull_idx.len() {
                 let i = hull_idx[w];
                 let j = hull_idx[(w + 1) % hull_idx.len()];
-                let a3 = back_project_to_3d(&pts2d[i], i0, i1, drop, p[2]);
-                let b3 = back_project_to_3d(&pts2d[j], i0, i1, drop, p[2]);
-                segs.push(Segment::new(&a3, &b3));
+                segs.push(Segment::new(&uniq[i], &uniq[j]));
             }
             TriTriIntersectionResult::CoplanarPolygon(segs)
         }
@@ -656,6 +655,28 @@ where
     coords
 }
 
+/// Lift a projected point back onto the plane through `reference` with normal `n`.
+fn lift_to_plane<T: Scalar, const N: usize>(
+    p: &Point2<T>,
+    i0: usize,
+    i1: usize,
+    drop: usize,
+    reference: &Point<T, N>,
+    n: &Vector<T, N>,
+) -> Point<T, N>
+where
+    Point<T, N>: SpatialElement<T, N>,
+    for<'a> &'a T: Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Add<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    let mut lifted = back_project_to_3d(p, i0, i1, drop, reference);
+    let rise = &(&n[i0] * &(&p[0] - &reference[i0])) + &(&n[i1] * &(&p[1] - &reference[i1]));
+    lifted[drop] = &reference[drop] - &(&rise / &n[drop]);
+    lifted
+}
+
 fn clip_segment_to_triangle_in_plane<T: Scalar, const N: usize>(
     a3: &Point<T, N>,
     b3: &Point<T, N>,
@@ -670,7 +691,7 @@ where
         + Add<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    let (i0, i1, drop) = coplanar_axes(n);
+    let (i0, i1, _drop) = coplanar_axes(n);
     let a = project_to_2d(a3, i0, i1);
     let b = project_to_2d(b3, i0, i1);
     let t = [
@@ -758,12 +779,8 @@ where
         return None;
     }
 
-    let lerp3 = |t: &T| {
-        let ox = &dx * t;
-        let oy = &dy * t;
-        let p2 = Point2::<T>::from_vals([&a[0] + &ox, &a[1] + &oy]);
-        back_project_to_3d::<T, N>(&p2, i0, i1, drop, a3) // drop axis from a3
-    };
+    let ab = (b3 - a3).as_vector();
+    let lerp3 = |t: &T| a3.add_vector(&ab.scale(t));
     let pa = lerp3(&t0);
     let pb = lerp3(&t1);
     if (&pb - &pa)
-- 
2.43.0


From a6b7f52b680a42013fe0e3889216c13be829950e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:51 +0000
Subject: [PATCH 10/36] fix: bound box-tree entries by intervals that contain
 the exact corners

---
 src/geometry/aabb_tree.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..92f0819 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -587,11 +587,15 @@ fn approx_from_exact<T: Scalar, const N: usize, P: SpatialElement<T, N>>(
     let mut mn = [0.0; N];
     let mut mx = [0.0; N];
     for i in 0..N {
-        // outward-safe: step one ULP past the rounded extremes
-        let lo = as_f64(&a.min[i]);
-        let hi = as_f64(&a.max[i]);
-        mn[i] = f64_next_down(lo);
-        mx[i] = f64_next_up(hi);
+        // outward-safe: the interval bounds, stepped one ULP further out
+        mn[i] = match a.min[i].double_interval() {
+            Some((lo, _)) if !lo.is_nan() => f64_next_down(lo),
+            _ => f64::NEG_INFINITY,
+        };
+        mx[i] = match a.max[i].double_interval() {
+            Some((_, hi)) if !hi.is_nan() => f64_next_up(hi),
+            _ => f64::INFINITY,
+        };
     }
     (mn, mx)
 }
-- 
2.43.0


From 09e3ddf8e9001453ccb895f01d7f8f59d74bca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:51 +0000
Subject: [PATCH 11/36] fix: do not count an invalidated entry as valid when
 inserting next to it

---
 src/geometry/aabb_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 92f0819..5e32f89 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -268,6 +268,7 @@ where
 
                 let node_aabb = left_child.aabb().union(right_child.aabb()); // exact once here
                 let total_items = left_child.size() + right_child.size();
+                let valid_items = total_items - usize::from(!*valid);
                 let (lmn, lmx) = left_child.approx_bounds();
                 let (rmn, rmx) = right_child.approx_bounds();
                 let (amin_u, amax_u) = approx_union(&lmn, &lmx, &rmn, &rmx);
@@ -276,7 +277,7 @@ where
                     aabb: node_aabb,
                     left: left_child,
                     right: right_child,
-                    valid_count: total_items,
+                    valid_count: valid_items,
                     total_count: total_items,
                     amin: amin_u,
                     amax: amax_u,
-- 
2.43.0


From 3d65bd7d7fd91b2679ed6eac2799dfcf97b70849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:38:27 +0000
Subject: [PATCH 12/36] fix: make the quick triangle box contain the triangle

---
 src/mesh/core.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..c8438fe 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -29,6 +29,7 @@ use crate::{
         Aabb, AabbTree,
         point::{Point, PointOps},
         spatial_element::SpatialElement,
+        util::EPS,
         vector::VectorOps,
     },
     impl_mesh, kernel,
@@ -1404,26 +1405,26 @@ pub fn compute_triangle_aabb_fast<T: Scalar, const N: usize>(
 where
     T: From<f64>,
 {
-    // Single allocation for all coordinates
-    let mut coords = [[0.0; N]; 3];
-
-    // Batch extract all coordinates
-    for i in 0..N {
-        coords[0][i] = p0[i].as_f64_fast()?;
-        coords[1][i] = p1[i].as_f64_fast()?;
-        coords[2][i] = p2[i].as_f64_fast()?;
+    // The box has to contain the triangle, so it is built from interval bounds
+    let mut mins = [f64::INFINITY; N];
+    let mut maxs = [f64::NEG_INFINITY; N];
+
+    for p in [p0, p1, p2] {
+        for i in 0..N {
+            let (lo, hi) = p[i].double_interval()?;
+            // Give up unless the interval is finite and tight
+            let width = hi - lo;
+            if !width.is_finite() || width > EPS * lo.abs().max(1.0) {
+                return None;
+            }
+            mins[i] = mins[i].min(lo);
+            maxs[i] = maxs[i].max(hi);
+        }
     }
 
-    // Vectorized min/max computation
-    let min_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].min(coords[1][i]).min(coords[2][i])));
-
-    let max_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].max(coords[1][i]).max(coords[2][i])));
-
     Some(Aabb::new(
-        Point::<T, N>::from_vals(min_coords),
-        Point::<T, N>::from_vals(max_coords),
+        Point::<T, N>::from_vals(mins.map(T::from)),
+        Point::<T, N>::from_vals(maxs.map(T::from)),
     ))
 }
 
-- 
2.43.0


From 1d64b6763a8a9bbd9642826a0208b0b885718920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:34 +0000
Subject: [PATCH 13/36] fix: rotate around the border edge's head when linking
 boundary loops

---
 src/mesh/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index c8438fe..b1d5b74 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -142,8 +142,8 @@ impl_mesh! {
                     break cand;
                 }
 
-                // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
+                // Keep rotating around the same vertex: `cand` also leaves head(b)
+                t = cand;
                 if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
-- 
2.43.0


From 5713a8e13b5c17dbad9f975a956375579502345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:34 +0000
Subject: [PATCH 14/36] fix: answer face neighbour queries from the edges of
 the face itself

---
 src/mesh/topology.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..cb7dc4b 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -789,25 +789,20 @@ impl_mesh! {
 
         let mut i = 0;
         loop {
-            let current_he = &self.half_edges[current_he_idx];
-            if let Some(face_idx) = current_he.face
+            // the face on the other side of this edge of `face`
+            let twin_idx = self.half_edges[current_he_idx].twin;
+            if let Some(face_idx) = self.half_edges[twin_idx].face
                 && !self.faces[face_idx].removed
             {
-                result[i] = face_idx; // valid half_edges should always point to valid faces
+                result[i] = face_idx;
                 i += 1;
-                if i == 3 {
-                    break; // we only need 3 faces
-                }
             }
 
-            let twin_idx = current_he.twin;
-            let next_idx = self.half_edges[twin_idx].next;
+            current_he_idx = self.half_edges[current_he_idx].next;
 
-            if next_idx == starting_he_idx {
+            if i == 3 || current_he_idx == starting_he_idx {
                 break;
             }
-
-            current_he_idx = next_idx;
         }
 
         result
@@ -1796,7 +1791,10 @@ impl_mesh! {
         }
 
         let face = &self.faces[face_idx];
-        if face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
+        if face.removed
+            || face.half_edge == usize::MAX
+            || self.half_edges[face.half_edge].removed
+        {
             return None;
         }
 
-- 
2.43.0


From 75bcd79d3268ba70d782288f9fa303f2d59ebe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:07 +0000
Subject: [PATCH 15/36] fix: keep the border loop and vertex handles valid when
 splitting a border edge

---
 src/mesh/core.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index b1d5b74..50e3211 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -737,7 +737,12 @@ impl_mesh! {
         update_tree: bool,
     ) -> Result<SplitResult, &'static str>
     {
-        let he_ca = he;
+        // Either side of the edge may be given; work from a side that has a face
+        let he_ca = if self.half_edges[he].face.is_some() {
+            he
+        } else {
+            self.half_edges[he].twin
+        };
         let he_ab = self.half_edges[he_ca].next;
         let he_bc = self.half_edges[he_ab].next;
         let he_ac = self.half_edges[he_ca].twin;
@@ -858,15 +863,20 @@ impl_mesh! {
                 self.half_edges[ex_he_cb].twin = he_bc;
             }
 
-            // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
-            self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
+            // Border half-edges bhe_aw (a->w) and bhe_wc (w->c) take the place of the
+            // old border half-edge a->c in its border loop
+            let border_prev = self.half_edges[he_ac].prev;
+            let border_next = self.half_edges[he_ac].next;
 
             self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+            self.half_edges[bhe_aw].prev = border_prev;
+            self.half_edges[bhe_aw].next = bhe_wc;
+            self.half_edges[border_prev].next = bhe_aw;
+
+            self.half_edges[bhe_wc].face = None;
+            self.half_edges[bhe_wc].prev = bhe_aw;
+            self.half_edges[bhe_wc].next = border_next;
+            self.half_edges[border_next].prev = bhe_wc;
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -877,10 +887,10 @@ impl_mesh! {
             self.edge_map.insert((a, w), bhe_aw);
 
             // Update representative half-edges at vertices
-            self.vertices[w].half_edge.get_or_insert(he_wb);
-            self.vertices[a].half_edge.get_or_insert(he_ab);
-            self.vertices[b].half_edge.get_or_insert(he_bc);
-            self.vertices[c].half_edge.get_or_insert(he_cw);
+            self.vertices[w].half_edge = Some(he_wb);
+            self.vertices[a].half_edge = Some(he_ab);
+            self.vertices[b].half_edge = Some(he_bc);
+            self.vertices[c].half_edge = Some(he_cw);
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From 594e87bcd670db06d744666d9a73c9ea94094935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:16 +0000
Subject: [PATCH 16/36] fix: refuse flips into degenerate triangles also when
 the normal has a negative zero

---
 src/mesh/core.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 50e3211..3b86c8f 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -668,9 +668,8 @@ impl_mesh! {
             let n2y = &cb2 * &db0 - &cb0 * &db2;
             let n2z = &cb0 * &db1 - &cb1 * &db0;
 
-            let zero = n1x.clone() - n1x.clone(); // cheap zero
-            let tri1_degenerate = n1x == zero && n1y == zero && n1z == zero;
-            let tri2_degenerate = n2x == zero && n2y == zero && n2z == zero;
+            let tri1_degenerate = n1x.is_zero() && n1y.is_zero() && n1z.is_zero();
+            let tri2_degenerate = n2x.is_zero() && n2y.is_zero() && n2z.is_zero();
             if tri1_degenerate || tri2_degenerate {
                 return Err("flip_edge: degenerate area");
             }
-- 
2.43.0


From 129ff6f1e3a1a00720690fc6073d93956409a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:52 +0000
Subject: [PATCH 17/36] fix: keep borders, orientation and manifoldness intact
 when collapsing edges

Collapsing a border edge removed two border half-edges that were still in
use and left the border loop open. Collapsing an interior edge between two
border vertices pinched the surface into a non-manifold vertex. The
area_eps2 and forbid_normal_flip options were accepted but never applied.
---
 src/mesh/edge_collapse.rs | 74 +++++++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 6 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..0bf8ee2 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -239,12 +239,20 @@ impl_mesh! {
         let p_star = placement.place(self, v0, v1);
 
         let survivors = self.surviving_faces_after_collapse(v0, v1);
+
+        // Merging two border vertices across the interior would pinch the surface
+        if opp_count == 2 && pr.ring0.is_border && pr.ring1.is_border && !survivors.is_empty() {
+            return Err(CollapseReject::LinkCondition);
+        }
+
         for &f in &survivors {
             let a2x4 = self.tri_area2_after_move_face(f, v0, v1, &p_star);
-            let eps = T::tolerance();
-            if a2x4 <= &(&eps * &eps) * &(&eps * &eps) {
+            if a2x4 <= &T::from(4) * &opts.area_eps2 {
                 return Err(CollapseReject::DegenerateFace);
             }
+            if opts.forbid_normal_flip && self.normal_flips_after_move_face(f, v0, v1, &p_star) {
+                return Err(CollapseReject::NormalFlip);
+            }
         }
 
         Ok(p_star)
@@ -271,6 +279,39 @@ impl_mesh! {
         v_gone: usize,
         p_star: &Point<T, N>,
     ) -> T
+    where
+        Vector<T, N>: VectorOps<T, N> + Cross3<T>,
+    {
+        let n = self.tri_normal_after_move_face(f, v_keep, v_gone, p_star);
+        n.dot(&n) // (2*area)^2
+    }
+
+    /// Does face `f` turn over when `v_keep` and `v_gone` move to `p_star`?
+    fn normal_flips_after_move_face(
+        &self,
+        f: usize,
+        v_keep: usize,
+        v_gone: usize,
+        p_star: &Point<T, N>,
+    ) -> bool
+    where
+        Vector<T, N>: VectorOps<T, N> + Cross3<T>,
+    {
+        let [i, j, k] = self.face_vertices(f);
+        let ab = (&self.vertices[j].position - &self.vertices[i].position).as_vector();
+        let ac = (&self.vertices[k].position - &self.vertices[i].position).as_vector();
+        let before = ab.cross(&ac);
+        let after = self.tri_normal_after_move_face(f, v_keep, v_gone, p_star);
+        before.dot(&after).is_negative()
+    }
+
+    fn tri_normal_after_move_face(
+        &self,
+        f: usize,
+        v_keep: usize,
+        v_gone: usize,
+        p_star: &Point<T, N>,
+    ) -> Vector<T, N>
     where
         Vector<T, N>: VectorOps<T, N> + Cross3<T>,
     {
@@ -285,8 +326,7 @@ impl_mesh! {
 
         let ab = (pb - pa).as_vector();
         let ac = (pc - pa).as_vector();
-        let n = ab.cross(&ac);
-        n.dot(&n) // (2*area)^2
+        ab.cross(&ac)
     }
 
     /// Begin collapse from a half-edge handle `he_ab`.
@@ -427,8 +467,11 @@ impl_mesh! {
         let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { usize::MAX };
         let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
 
-        // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // Half-edges to remove (the two faces' 6 interior half-edges); a border side
+        // only loses the collapsing half-edge itself
+        let [rl1, rl2] = if left_exists { [he_va, he_au] } else { [he_uv, he_uv] };
+        let [rr1, rr2] = if right_exists { [he_ub, he_bv] } else { [he_vu, he_vu] };
+        let remove_set = [he_uv, he_vu, rl1, rl2, rr1, rr2];
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -457,13 +500,20 @@ impl_mesh! {
         }
 
         // ---------- 6. Splice out the two faces locally (bridge the gaps) ----------
+        //            A border side closes its loop over the collapsing half-edge instead.
         if left_exists {
             self.half_edges[splice_l_from].next = splice_l_to;
             self.half_edges[splice_l_to].prev = splice_l_from;
+        } else {
+            self.half_edges[he_au].next = he_va;
+            self.half_edges[he_va].prev = he_au;
         }
         if right_exists {
             self.half_edges[splice_r_from].next = splice_r_to;
             self.half_edges[splice_r_to].prev = splice_r_from;
+        } else {
+            self.half_edges[he_bv].next = he_ub;
+            self.half_edges[he_ub].prev = he_bv;
         }
 
         // ---------- 7. Mark faces removed ----------
@@ -514,6 +564,18 @@ impl_mesh! {
             }
         }
 
+        // Drop edges left without a triangle on either side
+        buckets.retain(|_, pd| {
+            let hs: Vec<usize> = pd.d0.iter().chain(&pd.d1).copied().collect();
+            let bare = hs.iter().all(|&h| self.half_edges[h].face.is_none());
+            if bare {
+                for h in hs {
+                    self.half_edges[h].removed = true;
+                }
+            }
+            !bare
+        });
+
         // Assign twins & rebuild edge_map - only use first half-edge of each direction
         for ((a, b), pd) in &buckets {
             let h_ab = pd.d0.first().copied();
-- 
2.43.0


From b658b87b18d8aeca429a707e0f41e41646b32979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:39 +0000
Subject: [PATCH 18/36] fix: use every coordinate for the parameter of a point
 on a canonical edge

In 3D an edge parallel to the z axis always gave parameter zero.
---
 src/geometry/canonical_edge.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/canonical_edge.rs b/src/geometry/canonical_edge.rs
index ea7fa15..eded1ff 100644
--- a/src/geometry/canonical_edge.rs
+++ b/src/geometry/canonical_edge.rs
@@ -56,13 +56,17 @@ impl<T: Scalar, const N: usize> CanonicalEdge<T, N> {
         let edge_vec = &self.b - &self.a;
         let point_vec = p - &self.a;
 
-        let edge_len2 = &(&edge_vec[0] * &edge_vec[0]) + &(&edge_vec[1] * &edge_vec[1]);
+        let mut edge_len2 = T::zero();
+        let mut dot = T::zero();
+        for i in 0..N {
+            edge_len2 = &edge_len2 + &(&edge_vec[i] * &edge_vec[i]);
+            dot = &dot + &(&point_vec[i] * &edge_vec[i]);
+        }
 
         if edge_len2.is_zero() {
             return T::zero();
         }
 
-        let dot = &(&point_vec[0] * &edge_vec[0]) + &(&point_vec[1] * &edge_vec[1]);
         dot / edge_len2
     }
 }
-- 
2.43.0


From 803a1263604c85d48bb0b35062cacd28baf1aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:48 +0000
Subject: [PATCH 19/36] fix: report malformed mesh files as errors instead of
 panicking

The OBJ reader unwrapped every token, the OBJ and OFF readers passed
out-of-range or repeated indices on to the mesh, and all readers accepted
NaN and infinite coordinates, which the exact number types cannot hold.
An OFF polygon size larger than the file made the reader loop for ages.
---
 src/io/mod.rs | 20 ++++++++++++++++++++
 src/io/obj.rs | 29 ++++++++++++++++++-----------
 src/io/off.rs | 30 ++++++++----------------------
 src/io/stl.rs | 25 ++++---------------------
 4 files changed, 50 insertions(+), 54 deletions(-)

diff --git a/src/io/mod.rs b/src/io/mod.rs
index d48d28e..8198de0 100644
--- a/src/io/mod.rs
+++ b/src/io/mod.rs
@@ -23,3 +23,23 @@
 pub mod obj;
 pub mod off;
 pub mod stl;
+
+/// Parse one coordinate; only finite numbers are accepted.
+fn parse_coord(token: Option<&str>, what: &str) -> std::io::Result<f64> {
+    token
+        .and_then(|s| s.parse::<f64>().ok())
+        .filter(|x| x.is_finite())
+        .ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, what))
+}
+
+/// A face must name three different vertices that have been read.
+fn check_triangle(tri: [usize; 3], vertex_count: usize) -> std::io::Result<()> {
+    let [a, b, c] = tri;
+    if a >= vertex_count || b >= vertex_count || c >= vertex_count || a == b || b == c || c == a {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            format!("invalid face ({}, {}, {})", a, b, c),
+        ));
+    }
+    Ok(())
+}
diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..438beff 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -33,6 +33,7 @@ use crate::{
         spatial_element::SpatialElement,
         vector::{Cross3, Vector, VectorOps},
     },
+    io::{check_triangle, parse_coord},
     mesh::basic_types::Mesh,
     numeric::scalar::Scalar,
 };
@@ -94,7 +95,6 @@ where
     let reader = BufReader::new(file);
 
     let mut mesh = Mesh::new();
-    let mut vertex_map = Vec::new();
 
     for line in reader.lines() {
         let l = line?;
@@ -102,19 +102,26 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
-                let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
-                vertex_map.push(vid);
+                let x = parse_coord(parts.next(), "OBJ: bad vertex x")?;
+                let y = parse_coord(parts.next(), "OBJ: bad vertex y")?;
+                let z = parse_coord(parts.next(), "OBJ: bad vertex z")?;
+                mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
             }
             Some("f") => {
                 // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
-                // subtract 1 for zero-based
-                mesh.add_triangle(i - 1, j - 1, k - 1);
+                let mut tri = [0usize; 3];
+                for v in &mut tri {
+                    // subtract 1 for zero-based
+                    *v = parts
+                        .next()
+                        .and_then(|s| s.parse::<usize>().ok())
+                        .and_then(|i| i.checked_sub(1))
+                        .ok_or_else(|| {
+                            io::Error::new(io::ErrorKind::InvalidData, "OBJ: bad face index")
+                        })?;
+                }
+                check_triangle(tri, mesh.vertices.len())?;
+                mesh.add_triangle(tri[0], tri[1], tri[2]);
             }
             _ => {
                 // ignore comments, normals, etc.
diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..6b1dd54 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -32,6 +32,7 @@ use crate::{
         spatial_element::SpatialElement,
         vector::{Cross3, Vector, VectorOps},
     },
+    io::{check_triangle, parse_coord},
     mesh::basic_types::Mesh,
     numeric::scalar::Scalar,
 };
@@ -168,27 +169,9 @@ where
     // Vertices
     let mut mesh = Mesh::new();
     for _ in 0..vcount {
-        let x: f64 = it
-            .next()
-            .ok_or_else(|| {
-                io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete vertex (x)")
-            })?
-            .parse()
-            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex x"))?;
-        let y: f64 = it
-            .next()
-            .ok_or_else(|| {
-                io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete vertex (y)")
-            })?
-            .parse()
-            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex y"))?;
-        let z: f64 = it
-            .next()
-            .ok_or_else(|| {
-                io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete vertex (z)")
-            })?
-            .parse()
-            .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex z"))?;
+        let x = parse_coord(it.next().as_deref(), "OFF: bad vertex x")?;
+        let y = parse_coord(it.next().as_deref(), "OFF: bad vertex y")?;
+        let z = parse_coord(it.next().as_deref(), "OFF: bad vertex z")?;
 
         // Assuming Point3::<T>::from_vals accepts f64s as in your OBJ reader
         let _vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
@@ -230,11 +213,14 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            check_triangle([a, b, c], mesh.vertices.len())?;
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
             for _ in 0..poly_size {
-                let _ = it.next(); // discard
+                it.next().ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "OFF: incomplete face")
+                })?; // discard
             }
         }
     }
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 4a5b6b5..3119ba6 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -32,6 +32,7 @@ use crate::{
         spatial_element::SpatialElement,
         vector::{Cross3, Vector, VectorOps},
     },
+    io::parse_coord,
     mesh::basic_types::Mesh,
     numeric::scalar::Scalar,
 };
@@ -151,27 +152,9 @@ where
                 vertices.clear();
             }
             Some("vertex") => {
-                let x: f64 = parts
-                    .next()
-                    .ok_or_else(|| {
-                        io::Error::new(io::ErrorKind::InvalidData, "STL: missing vertex x")
-                    })?
-                    .parse()
-                    .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex x"))?;
-                let y: f64 = parts
-                    .next()
-                    .ok_or_else(|| {
-                        io::Error::new(io::ErrorKind::InvalidData, "STL: missing vertex y")
-                    })?
-                    .parse()
-                    .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex y"))?;
-                let z: f64 = parts
-                    .next()
-                    .ok_or_else(|| {
-                        io::Error::new(io::ErrorKind::InvalidData, "STL: missing vertex z")
-                    })?
-                    .parse()
-                    .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
+                let x = parse_coord(parts.next(), "STL: bad vertex x")?;
+                let y = parse_coord(parts.next(), "STL: bad vertex y")?;
+                let z = parse_coord(parts.next(), "STL: bad vertex z")?;
 
                 let vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
                 vertices.push(vid);
-- 
2.43.0


From fe589f28dfce5bee477b5fd5667cf4ff2afde0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:48 +0000
Subject: [PATCH 20/36] fix: saturate spatial hash cells of very negative
 coordinates

Coordinates below about -1e12 overflowed the cell index.
---
 src/mesh/spatial_hash.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index 51611b6..5dbe8b5 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -40,7 +40,7 @@ impl_mesh! {
     fn floor_sat_i64(x: f64) -> i64 {
         if !x.is_finite() { return if x.is_sign_positive() { i64::MAX } else { i64::MIN }; }
         let i = x as i64;
-        i - ((i as f64 > x) as i64)
+        i.saturating_sub((i as f64 > x) as i64)
     }
 
     #[inline(always)]
-- 
2.43.0


From 88b7cde591d20d9281b594683fd1c0d5ab680676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:36 +0000
Subject: [PATCH 21/36] fix: lazy-exact numbers report no interval when their
 ball is unbounded

---
 src/numeric/lazy_exact.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 959c80a..bfcb931 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -201,6 +201,9 @@ impl Scalar for LazyExact {
     #[inline(always)]
     fn double_interval(&self) -> Option<(f64, f64)> {
         let b = self.ball_ref();
+        if !b.m.is_finite() || !b.r.is_finite() {
+            return None; // nothing is known about the value
+        }
         // Ball is already outward-safe; just return center +/- radius.
         Some((f64_next_down(b.m - b.r), f64_next_up(b.m + b.r)))
     }
-- 
2.43.0


From 2fc93c35ba86f7837af676be29c3cae9d33a6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:36 +0000
Subject: [PATCH 22/36] fix: weld duplicate vertices into a connected mesh and
 keep vertex lookup in step with edits

Merged vertices now share their half-edges, equal coordinates always hash to
the same cell, and lookups follow vertices that were moved or retired.
---
 src/mesh/core.rs          | 84 ++++++++++-----------------------------
 src/mesh/edge_collapse.rs |  2 +-
 src/mesh/spatial_hash.rs  | 43 +++++++++++++++-----
 3 files changed, 55 insertions(+), 74 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 3b86c8f..4eda201 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -265,6 +265,9 @@ impl_mesh! {
         let mut spatial_groups: AHashMap<u128, Bucket> = AHashMap::new();
 
         for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
+            if vertex.removed {
+                continue;
+            }
             let hash_key = self.position_to_packed_key(&vertex.position);
             spatial_groups.entry(hash_key).or_default().push(vertex_idx);
         }
@@ -306,14 +309,12 @@ impl_mesh! {
         }
 
         // Create compacted vertex list and final mapping
-        let mut new_vertices = Vec::new();
+        let mut welded = Mesh::new();
         let mut old_to_new = vec![usize::MAX; self.vertices.len()];
 
         for (old_idx, vertex) in self.vertices.iter().enumerate() {
-            if !duplicates.contains(&old_idx) {
-                let new_idx = new_vertices.len();
-                old_to_new[old_idx] = new_idx;
-                new_vertices.push(vertex.clone());
+            if !vertex.removed && !duplicates.contains(&old_idx) {
+                old_to_new[old_idx] = welded.add_vertex(vertex.position.clone());
             }
         }
 
@@ -323,63 +324,18 @@ impl_mesh! {
             old_to_new[duplicate_idx] = old_to_new[canonical_idx];
         }
 
-        // Update all half-edge vertex references
-        for half_edge in &mut self.half_edges {
-            if half_edge.removed {
+        // Faces that used different copies of a vertex share edges now, so the half-edges
+        // are rebuilt. Faces that became degenerate are dropped.
+        for face_idx in 0..self.faces.len() {
+            if self.faces[face_idx].removed {
                 continue;
             }
-
-            let old_vertex = half_edge.vertex;
-            if old_vertex < old_to_new.len() {
-                if let Some(&new_vertex) = old_to_new.get(old_vertex) {
-                    if new_vertex != usize::MAX {
-                        half_edge.vertex = new_vertex;
-                    }
-                }
+            let [a, b, c] = self.face_vertices(face_idx).map(|v| old_to_new[v]);
+            if a != b && b != c && c != a {
+                welded.add_triangle(a, b, c);
             }
         }
-
-        // Update vertex half-edge references
-        for vertex in &mut new_vertices {
-            if let Some(he_idx) = vertex.half_edge {
-                // Verify the half-edge still exists and is valid
-                if he_idx >= self.half_edges.len() || self.half_edges[he_idx].removed {
-                    vertex.half_edge = None;
-                }
-            }
-        }
-
-        // Rebuild edge map with new vertex indices
-        let mut new_edge_map = AHashMap::new();
-        for (&(old_v1, old_v2), &he_idx) in &self.edge_map {
-            if old_v1 < old_to_new.len() && old_v2 < old_to_new.len() {
-                let new_v1 = old_to_new[old_v1];
-                let new_v2 = old_to_new[old_v2];
-
-                if new_v1 != usize::MAX && new_v2 != usize::MAX && new_v1 != new_v2 {
-                    // Only keep edges that don't become self-loops
-                    new_edge_map.insert((new_v1, new_v2), he_idx);
-                }
-            }
-        }
-
-        // Rebuild spatial hash with new vertex indices
-        let mut new_spatial_hash: AHashMap<u128, Bucket> = AHashMap::new();
-        for (vertex_idx, vertex) in new_vertices.iter().enumerate() {
-            let hash_key = self.position_to_packed_key(&vertex.position);
-            new_spatial_hash
-                .entry(hash_key)
-                .or_default()
-                .push(vertex_idx);
-        }
-
-        // Update mesh data structures
-        self.vertices = new_vertices;
-        self.edge_map = new_edge_map;
-        self.vertex_spatial_hash = new_spatial_hash;
-
-        // Remove any degenerate faces that may have been created
-        // self.remove_degenerate_faces();
+        *self = welded;
 
         initial_count - self.vertices.len()
     }
@@ -521,7 +477,9 @@ impl_mesh! {
         // center cell first
         if let Some(bucket) = self.vertex_spatial_hash.get(&center_key) {
             for &vi in bucket {
-                if kernel::are_approximately_equal(&self.vertices[vi].position, pos) {
+                if !self.vertices[vi].removed
+                    && kernel::are_approximately_equal(&self.vertices[vi].position, pos)
+                {
                     return (vi, true);
                 }
             }
@@ -558,7 +516,9 @@ impl_mesh! {
             let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
-                    if kernel::are_equal(&self.vertices[vi].position, pos) {
+                    if !self.vertices[vi].removed
+                        && kernel::are_equal(&self.vertices[vi].position, pos)
+                    {
                         return (vi, true);
                     }
                 }
@@ -1378,9 +1338,7 @@ impl_mesh! {
         // ...existing degeneracy check...
 
         // Commit new position
-        self.vertices[v].position[0] = axp;
-        self.vertices[v].position[1] = ayp;
-        self.vertices[v].position[2] = azp;
+        self.set_vertex_position(v, new_pos);
 
         true
     }
diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 0bf8ee2..0ae164e 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -535,7 +535,7 @@ impl_mesh! {
         }
 
         // ---------- 9. Retire v, move position into u ----------
-        self.vertices[u].position = plan.p_star;
+        self.set_vertex_position(u, plan.p_star);
         self.vertices[v].removed = true;
         self.vertices[v].half_edge = None;
 
diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index 5dbe8b5..5cf8b42 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -22,7 +22,13 @@
 
 use ahash::AHashMap;
 
-use crate::{geometry::point::Point, impl_mesh, numeric::cgar_f64::CgarF64};
+use num_traits::ToPrimitive;
+
+use crate::{
+    geometry::point::Point,
+    impl_mesh,
+    numeric::{cgar_f64::CgarF64, cgar_rational::CgarRational},
+};
 
 impl_mesh! {
     pub fn with_default_hash(mut self) -> Self {
@@ -53,19 +59,36 @@ impl_mesh! {
         ux | (uy << 42) | (uz << 84)
     }
 
+    /// Cell of a coordinate. Equal values always get the same cell, however they were computed:
+    /// the approximation is only used where its error cannot change the cell.
     #[inline(always)]
-    pub fn position_to_hash_key(&self, pos: &Point<T, N>) -> (i64, i64, i64) {
+    fn coord_to_hash_key(&self, x: &T) -> i64 {
         let inv = self.hash_inv;
+        if let Some((lo, hi)) = x.double_interval() {
+            let k = Self::floor_sat_i64(lo * inv);
+            if k == Self::floor_sat_i64(hi * inv) {
+                return k;
+            }
+        }
+        let exact: CgarRational = x.ref_into();
+        Self::floor_sat_i64(exact.to_f64().unwrap_or(0.0) * inv)
+    }
 
-        let ax = if 0 < N { let a: CgarF64 = (&pos[0]).ref_into(); a.0 } else { 0.0 };
-        let ay = if 1 < N { let a: CgarF64 = (&pos[1]).ref_into(); a.0 } else { 0.0 };
-        let az = if 2 < N { let a: CgarF64 = (&pos[2]).ref_into(); a.0 } else { 0.0 };
+    #[inline(always)]
+    pub fn position_to_hash_key(&self, pos: &Point<T, N>) -> (i64, i64, i64) {
+        let key = |i: usize| if i < N { self.coord_to_hash_key(&pos[i]) } else { 0 };
+        (key(0), key(1), key(2))
+    }
 
-        (
-            Self::floor_sat_i64(ax * inv),
-            Self::floor_sat_i64(ay * inv),
-            Self::floor_sat_i64(az * inv),
-        )
+    /// Move vertex `v`, keeping the spatial hash in step with its position.
+    pub fn set_vertex_position(&mut self, v: usize, pos: Point<T, N>) {
+        let old_key = self.position_to_packed_key(&self.vertices[v].position);
+        if let Some(bucket) = self.vertex_spatial_hash.get_mut(&old_key) {
+            bucket.retain(|vi| *vi != v);
+        }
+        let new_key = self.position_to_packed_key(&pos);
+        self.vertex_spatial_hash.entry(new_key).or_default().push(v);
+        self.vertices[v].position = pos;
     }
 
     #[inline(always)]
-- 
2.43.0


From f193283a5f51a711916882ffc91ab325c8c14740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:06 +0000
Subject: [PATCH 23/36] fix: triangulate the whole convex hull and insert every
 constraint

The super-triangle lost hull triangles with large circumcircles and did not
contain point sets away from the origin. Ghost triangles on the hull edges
replace it. The in-circle filter now bounds its rounding error.

Constraints are inserted by flipping only strictly convex quadrilaterals until
no edge crosses them. Results of a batch keep the order of its jobs. Selecting
the triangles inside a face now reaches triangles away from its sides.
---
 src/operations/triangulation/delaunay.rs | 916 +++++------------------
 1 file changed, 175 insertions(+), 741 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..bc066d4 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -20,14 +20,15 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+use std::collections::VecDeque;
+
 use ahash::{AHashMap, AHashSet};
 use smallvec::SmallVec;
 
 use crate::geometry::Point2;
 use crate::geometry::point::Point;
-use crate::geometry::spatial_element::SpatialElement;
 use crate::geometry::util::EPS;
-use crate::kernel::predicates::{bbox_approx2d, incircle, orient2d};
+use crate::kernel::predicates::{incircle, orient2d};
 use crate::mesh::basic_types::{Edge, Mesh, Triangle};
 use crate::mesh_processing::batching::FaceJobUV;
 use crate::numeric::scalar::Scalar;
@@ -123,66 +124,8 @@ where
         // Pre-allocate results
         let mut results = Vec::with_capacity(jobs.len());
 
-        // Batch super-triangle computation using single bbox pass
-        let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
-            if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
-                super_triangles.push(None);
-                continue;
-            }
-
-            let (min, max) = bbox_approx2d(&job.points_uv);
-            let dx = &max[0] - &min[0];
-            let dy = &max[1] - &min[1];
-            let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
-            let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-
-            super_triangles.push(Some((cx, cy, r)));
-        }
-
-        // Process each job with pre-computed super-triangle
-        for (job_idx, job) in jobs.iter().enumerate() {
-            if job.points_uv.len() < 3 {
-                continue;
-            }
-
-            let Some((cx, cy, r)) = &super_triangles[job_idx] else {
-                continue;
-            };
-
-            let mut points = job.points_uv.clone();
-            let sqrt_3 = T::from(SQRT_3);
-            let s0 = points.len();
-            let s1 = s0 + 1;
-            let s2 = s0 + 2;
-
-            points.extend([
-                Point2::<T>::from_vals([
-                    T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
-                ]),
-                Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
-                Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
-            ]);
-
-            let mut triangles = vec![Triangle(s0, s1, s2)];
-
-            // Bowyer-Watson insertion
-            for pid in 0..s0 {
-                Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
-            }
-
-            // Remove super-triangles and finalize
-            triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-            points.truncate(s0);
-
-            let mut dt = Self { points, triangles };
+            let mut dt = Self::build(&job.points_uv);
 
             // Batch constraint processing
             Self::process_constraints_batch(&mut dt, &job.segments);
@@ -236,54 +179,51 @@ where
 
     /// Build Delaunay triangulation of `pts`. Duplicates are ignored.
     pub fn build(pts: &[Point2<T>]) -> Self {
-        let mut points = pts.to_vec();
-        if points.len() < 3 {
+        let points = pts.to_vec();
+        let Some(Triangle(a, b, c)) = Self::first_triangle(&points) else {
             return Self {
                 points,
                 triangles: Vec::new(),
             };
-        }
+        };
 
-        // Create super-triangle that contains all points
-        let (min, max) = bbox_approx2d(&points);
-        let dx = &max[0] - &min[0];
-        let dy = &max[1] - &min[1];
-        let delta = dx.max(dy);
-        let cx = &(&min[0] + &max[0]) * &T::from_num_den(1, 2);
-        let cy = &(&min[1] + &max[1]) * &T::from_num_den(1, 2);
-
-        let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
-        let sqrt_3 = T::from(SQRT_3);
-        let p_super0 = Point2::<T>::from_vals([
-            T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
-        ]);
-        let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-        let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-
-        let s0 = points.len();
-        let s1 = s0 + 1;
-        let s2 = s0 + 2;
-
-        points.push(p_super0);
-        points.push(p_super1);
-        points.push(p_super2);
-
-        // Initialize with super-triangle
-        let mut triangles = vec![Triangle(s0, s1, s2)];
+        // Every hull edge carries a ghost triangle that connects it to a vertex at infinity,
+        // so the triangulation always covers the whole plane. The ghost is a triangle's last index.
+        let ghost = points.len();
+        let mut triangles = vec![
+            Triangle(a, b, c),
+            Triangle(b, a, ghost),
+            Triangle(c, b, ghost),
+            Triangle(a, c, ghost),
+        ];
 
         // Insert each point using Bowyer-Watson
-        for pid in 0..s0 {
-            Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
+        for pid in 0..points.len() {
+            if pid != a && pid != b && pid != c {
+                Self::bowyer_watson_insert_point(pid, &points, &mut triangles);
+            }
         }
 
-        // Remove super-triangles
-        triangles.retain(|t| t.0 < s0 && t.1 < s0 && t.2 < s0);
-        points.truncate(s0);
+        // Remove ghost triangles
+        triangles.retain(|t| t.2 != ghost);
 
         Self { points, triangles }
     }
 
+    /// First counter-clockwise triangle of points that are not on one line
+    fn first_triangle(points: &[Point2<T>]) -> Option<Triangle> {
+        let b = (1..points.len()).find(|&i| points[i] != points[0])?;
+        for c in b + 1..points.len() {
+            let o = orient2d(&points[0], &points[b], &points[c]);
+            if o.is_positive() {
+                return Some(Triangle(0, b, c));
+            } else if o.is_negative() {
+                return Some(Triangle(b, 0, c));
+            }
+        }
+        None
+    }
+
     /// Insert a single point using Bowyer-Watson algorithm
     fn bowyer_watson_insert_point(pid: usize, points: &[Point2<T>], triangles: &mut Vec<Triangle>) {
         let p = &points[pid];
@@ -291,7 +231,12 @@ where
         // Find triangles whose circumcircle contains p
         let mut bad_triangles = Vec::new();
         for (i, &t) in triangles.iter().enumerate() {
-            if Self::point_in_circumcircle_fast(p, t, points) {
+            let bad = if t.2 == points.len() {
+                Self::point_beyond_hull_edge(p, t, points)
+            } else {
+                Self::point_in_circumcircle_fast(p, t, points)
+            };
+            if bad {
                 bad_triangles.push(i);
             }
         }
@@ -300,24 +245,17 @@ where
             return; // Point already well-positioned
         }
 
-        // Find cavity boundary
-        let mut edge_count = std::collections::HashMap::new();
+        // Find cavity boundary: directed edges whose twin is not in the cavity
+        let mut cavity_edges = AHashSet::new();
         for &i in &bad_triangles {
-            let t = triangles[i];
-            for edge in [
-                Edge::new(t.0, t.1),
-                Edge::new(t.1, t.2),
-                Edge::new(t.2, t.0),
-            ] {
-                *edge_count.entry(edge).or_insert(0) += 1;
-            }
+            cavity_edges.extend(tri_edges(triangles[i]));
         }
-
-        // Boundary edges appear exactly once
-        let boundary_edges: Vec<Edge> = edge_count
-            .into_iter()
-            .filter_map(|(edge, count)| if count == 1 { Some(edge) } else { None })
+        let mut boundary_edges: Vec<(usize, usize)> = cavity_edges
+            .iter()
+            .copied()
+            .filter(|&(u, v)| !cavity_edges.contains(&(v, u)))
             .collect();
+        boundary_edges.sort_unstable();
 
         // Remove bad triangles (in reverse order to preserve indices)
         bad_triangles.sort_unstable();
@@ -326,57 +264,35 @@ where
         }
 
         // Create new triangles by connecting boundary edges to new point
-        for edge in boundary_edges {
-            let new_triangle = if orient2d(&points[edge.a()], &points[edge.b()], p).is_positive() {
-                Triangle(edge.a(), edge.b(), pid)
+        for (u, v) in boundary_edges {
+            let new_triangle = if u == points.len() {
+                Triangle(v, pid, u)
+            } else if v == points.len() {
+                Triangle(pid, u, v)
             } else {
-                Triangle(edge.a(), pid, edge.b())
+                Triangle(u, v, pid)
             };
             triangles.push(new_triangle);
         }
     }
 
-    /// Test if point is inside circumcircle of triangle
-    fn point_in_circumcircle(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
-        let (a, b, c) = (t.0, t.1, t.2);
-
-        // Ensure CCW orientation for consistent incircle test
-        let (aa, bb, cc) = if orient2d(&points[a], &points[b], &points[c]).is_positive() {
-            (a, b, c)
-        } else {
-            (a, c, b)
-        };
-
-        incircle(&points[aa], &points[bb], &points[cc], p).is_positive()
+    /// Test if point lies beyond the hull edge of a ghost triangle, or inside the edge itself
+    fn point_beyond_hull_edge(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
+        let (a, b) = (&points[t.0], &points[t.1]);
+        let o = orient2d(a, b, p);
+        o.is_positive() || (o.is_zero() && p != a && p != b && on_segment(a, b, p))
     }
 
+    /// Test if point is inside circumcircle of a counter-clockwise triangle
     fn point_in_circumcircle_fast(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
-        if let Some((cx, cy, r2)) =
-            circumcircle_approx_fast(&points[t.0], &points[t.1], &points[t.2])
-        {
-            let px = p[0].ball_center_f64();
-            let py = p[1].ball_center_f64();
-
-            if [px, py, cx, cy, r2].iter().all(|x| x.is_finite()) {
-                let dx = px - cx;
-                let dy = py - cy;
-                let dist2 = dx * dx + dy * dy;
-
-                let tolerance = EPS * r2.max(1.0);
-
-                // Clearly outside circumcircle
-                if dist2 > r2 + tolerance {
-                    return false;
-                }
-                // Clearly inside circumcircle
-                if dist2 < r2 - tolerance {
-                    return true;
-                }
-            }
+        let (a, b, c) = (&points[t.0], &points[t.1], &points[t.2]);
+
+        if let Some(det) = incircle_sign_approx(a, b, c, p) {
+            return det > 0;
         }
 
         // Uncertain cases: fallback to exact
-        Self::point_in_circumcircle(p, t, points)
+        incircle(a, b, c, p).is_positive()
     }
 
     /// Complete Bowyer-Watson with constraint handling
@@ -455,40 +371,12 @@ where
         true
     }
 
-    fn triangle_exists(&self, a: usize, b: usize, c: usize) -> bool {
-        let mut k = [a, b, c];
-        k.sort_unstable();
-        self.triangles.iter().any(|t| {
-            let mut s = [t.0, t.1, t.2];
-            s.sort_unstable();
-            s == k
-        })
-    }
-
-    fn neighbors_of(&self, v: usize) -> AHashSet<usize> {
-        let mut set = AHashSet::default();
-        for t in &self.triangles {
-            if t.0 == v {
-                set.insert(t.1);
-                set.insert(t.2);
-            }
-            if t.1 == v {
-                set.insert(t.0);
-                set.insert(t.2);
-            }
-            if t.2 == v {
-                set.insert(t.0);
-                set.insert(t.1);
-            }
-        }
-        set.remove(&v);
-        set
-    }
-
+    /// Force the edge (a,b) by flipping the edges it crosses. No other point may lie on (a,b);
+    /// see `split_constraint_chain`.
     fn insert_constraint_walk(
         &mut self,
-        mut a: usize,
-        mut b: usize,
+        a: usize,
+        b: usize,
         adj: &mut Adj,
         constrained: &AHashSet<Edge>,
     ) -> Result<(), &'static str> {
@@ -496,276 +384,93 @@ where
             return Ok(());
         }
 
-        // Choose a starting triangle that actually faces toward the segment (a,b).
-        // Prefer a's incident triangles; if none useful, swap endpoints and try b.
-        let pick_start = |end: usize, other: usize| -> Option<usize> {
-            if let Some(inc) = adj.vert2tris.get(end) {
-                for &ti in inc.iter() {
-                    if exit_edge_of_triangle_fast(
-                        &self.points,
-                        adj,
-                        &self.triangles,
-                        ti,
-                        end,
-                        other,
-                    )
-                    .is_some()
-                    {
-                        return Some(ti);
-                    }
-                }
-                if let Some(&ti) = inc.get(0) {
-                    return Some(ti);
-                }
-            }
-            None
-        };
-        let mut current_tri = if let Some(ti) = pick_start(a, b) {
-            ti
-        } else if let Some(ti) = pick_start(b, a) {
-            std::mem::swap(&mut a, &mut b);
-            ti
-        } else {
-            return Err("no incident triangle for either endpoint");
-        };
-
-        // Track the best (latest) apex seen on each side of (a,b).
-        let mut last_pos_apex: Option<usize> = None;
-        let mut last_neg_apex: Option<usize> = None;
+        let mut crossing = self.edges_crossed_by(a, b, adj)?;
+        if crossing.iter().any(|e| constrained.contains(e)) {
+            return Err("constraint crosses another constraint");
+        }
 
-        // Visit-state: avoid cycles
-        let mut visited = ahash::AHashSet::<(usize, Edge)>::default();
+        let max_steps = 16 + 4 * crossing.len() * (crossing.len() + self.points.len());
         let mut steps = 0usize;
-        let max_steps = 4 * self.triangles.len().max(10);
-
-        while !self.edge_exists(Edge::new(a, b)) {
+        while let Some(e) = crossing.pop_front() {
             steps += 1;
             if steps > max_steps {
                 return Err("insert_constraint_walk: too many steps");
             }
 
-            // Decide the edge we must cross from current_tri toward segment (a,b)
-            let (cross_e, nei) = match exit_edge_of_triangle_fast(
-                &self.points,
-                adj,
-                &self.triangles,
-                current_tri,
-                a,
-                b,
-            ) {
-                Some(x) => x,
-                None => return Err("walker stuck: no exit edge"),
+            let (t0, t1) = match adj.edge2tris.get(&e).map(|v| v.as_slice()) {
+                Some(&[t0, t1]) => (t0, t1),
+                _ => return Err("crossed edge is not shared by two triangles"),
             };
-
-            // Record apex on the side we are leaving across cross_e
-            if let Some(w) = third_vertex(self.triangles[current_tri], cross_e.a(), cross_e.b()) {
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_positive() {
-                    last_pos_apex = Some(w);
-                } else if s.is_negative() {
-                    last_neg_apex = Some(w);
-                }
-            }
-
-            if !visited.insert((current_tri, cross_e)) {
-                return Err("walker cycle detected");
-            }
-
-            // If we already have the target edge, stop walking; we'll add missing side(s) below.
-            if (cross_e.a() == a && cross_e.b() == b) || (cross_e.a() == b && cross_e.b() == a) {
-                break;
-            }
-
-            // Interior vs boundary
-            match adj.edge2tris.get(&cross_e).map(|v| v.len()).unwrap_or(0) {
-                2 => {
-                    // Interior: try to flip if allowed, otherwise step across.
-                    if !constrained.contains(&cross_e) {
-                        if let Some(new_e) = self.flip_shared_edge_with_adj(
-                            cross_e,
-                            adj.edge2tris[&cross_e][0],
-                            adj.edge2tris[&cross_e][1],
-                            constrained,
-                            adj,
-                        ) {
-                            // If this flip created (a,b), stop walking.
-                            if (new_e.a() == a && new_e.b() == b)
-                                || (new_e.a() == b && new_e.b() == a)
-                            {
-                                break;
-                            }
-                            // Re-evaluate from the same triangle index for stability.
-                            continue;
-                        }
-                    }
-                    // No flip (or constrained): step to neighbor if available.
-                    if let Some(next_ti) = nei {
-                        current_tri = next_ti;
-                    } else {
-                        return Err("no neighbor across interior edge");
+            match self.flip_shared_edge_with_adj(e, t0, t1, adj) {
+                Some(new_e) => {
+                    if self.edge_crosses(new_e, a, b) {
+                        crossing.push_back(new_e);
                     }
                 }
-                _ => {
-                    // Boundary: split triangles to introduce progress for (a,b), then continue walking.
-                    self.handle_boundary_crossing(current_tri, cross_e, a, b, adj)?;
-                    visited.clear(); // topology changed; clear cycle state
-                }
+                // Not flippable yet: retry after its neighbours were flipped.
+                None => crossing.push_back(e),
             }
         }
 
-        // At this point, (a,b) should exist. If it has only one incident triangle, add the missing one
-        // deterministically using the last recorded apex on the opposite side; fall back to best common neighbor.
-        self.add_missing_triangle_for_edge(a, b, last_pos_apex, last_neg_apex, adj);
-
         Ok(())
     }
 
-    /// After (a,b) exists, if it has only one incident triangle, add the missing one.
-    /// Prefer the recorded apexes from the walk; otherwise choose the best common neighbor on the opposite side.
-    fn add_missing_triangle_for_edge(
-        &mut self,
+    /// Edges properly crossed by the segment (a,b), in order from a to b.
+    fn edges_crossed_by(
+        &self,
         a: usize,
         b: usize,
-        last_pos_apex: Option<usize>,
-        last_neg_apex: Option<usize>,
-        adj: &mut Adj,
-    ) where
-        T: PartialOrd,
-    {
-        let e = Edge::new(a, b);
-        let list = match adj.edge2tris.get(&e) {
-            Some(v) => v.clone(),
-            None => return,
-        };
-        if list.len() >= 2 {
-            return; // already has both sides
-        }
-        if list.is_empty() {
-            return; // unexpected; nothing to do
-        }
-
-        // Existing side sign
-        let ti_exist = list[0];
-        if ti_exist >= self.triangles.len() {
-            return;
-        }
-        let w_exist = match third_vertex(self.triangles[ti_exist], a, b) {
-            Some(w) => w,
-            None => return,
-        };
-        let s_exist = orient2d(&self.points[a], &self.points[b], &self.points[w_exist]);
-        if s_exist.is_zero() {
-            return;
-        }
-
-        // Target side is the opposite one
-        let want_pos = s_exist.is_negative();
-
-        // 1) Prefer recorded apex from the walk on the wanted side
-        let mut candidate = if want_pos {
-            last_pos_apex
-        } else {
-            last_neg_apex
-        };
+        adj: &Adj,
+    ) -> Result<VecDeque<Edge>, &'static str> {
+        let side = |v: usize| orient2d(&self.points[a], &self.points[b], &self.points[v]);
+
+        // Triangle at a that the segment leaves through its opposite edge (x,y): x right, y left.
+        let start = adj.vert2tris[a].iter().find_map(|&ti| {
+            let t = self.triangles[ti];
+            let (x, y) = if t.0 == a {
+                (t.1, t.2)
+            } else if t.1 == a {
+                (t.2, t.0)
+            } else {
+                (t.0, t.1)
+            };
+            (side(x).is_negative() && side(y).is_positive()).then_some((ti, x, y))
+        });
+        let (mut ti, mut x, mut y) = start.ok_or("no triangle faces the constraint")?;
 
-        // 2) Fallback: search common neighbors of a and b on the wanted side, pick max |area|
-        if candidate.is_none() {
-            let na = self.neighbors_of(a);
-            let nb = self.neighbors_of(b);
-            let mut best_w: Option<usize> = None;
-            let mut best_score: Option<T> = None;
-            for &w in na.intersection(&nb) {
-                if w == a || w == b || w == w_exist {
-                    continue;
-                }
-                if self.triangle_exists(a, b, w) {
-                    continue;
-                }
-                // avoid creating long edges
-                if edge_has_mid_vertex(a, w, &self.points)
-                    || edge_has_mid_vertex(b, w, &self.points)
-                {
-                    continue;
-                }
-                let s = orient2d(&self.points[a], &self.points[b], &self.points[w]);
-                if s.is_zero() || (want_pos != s.is_positive()) {
-                    continue;
-                }
-                let score = if s.is_negative() { -s } else { s }; // |area|
-                if best_score.as_ref().map_or(true, |bs| score > *bs) {
-                    best_score = Some(score);
-                    best_w = Some(w);
-                }
+        let mut crossed = VecDeque::new();
+        loop {
+            let e = Edge::new(x, y);
+            crossed.push_back(e);
+            ti = adj.edge2tris[&e]
+                .iter()
+                .copied()
+                .find(|&t| t != ti)
+                .ok_or("constraint leaves the triangulation")?;
+            let w = other_across(self.triangles[ti], e).ok_or("degenerate triangle")?;
+            if w == b {
+                return Ok(crossed);
+            }
+            let s = side(w);
+            if s.is_positive() {
+                y = w;
+            } else if s.is_negative() {
+                x = w;
+            } else {
+                return Err("constraint passes through a vertex");
             }
-            candidate = best_w;
         }
-
-        let Some(w) = candidate else {
-            return;
-        };
-
-        // Create triangle (a,b,w) with CCW orientation
-        let t_new = if orient2d(&self.points[a], &self.points[b], &self.points[w]).is_positive() {
-            Triangle(a, b, w)
-        } else {
-            Triangle(a, w, b)
-        };
-
-        let ti = self.triangles.len();
-        self.triangles.push(t_new);
-        adj.add_tri(ti, t_new);
     }
 
-    fn handle_boundary_crossing(
-        &mut self,
-        tri_idx: usize,
-        boundary_edge: Edge,
-        a: usize,
-        b: usize,
-        adj: &mut Adj,
-    ) -> Result<(), &'static str> {
-        // We are crossing a boundary edge (u,v) from triangle tri_idx. Replace it with TWO triangles
-        // that introduce the constrained edge between the endpoint on the boundary (anchor) and the other endpoint.
-        let tri = self.triangles[tri_idx];
-        let (u, v) = (boundary_edge.a(), boundary_edge.b());
-        let w = third_vertex(tri, u, v).ok_or("invalid boundary edge")?;
-
-        // Determine which endpoint of (a,b) lies on this boundary edge; that must be the anchor.
-        let anchor = if u == a || v == a {
-            a
-        } else if u == b || v == b {
-            b
-        } else {
-            return Err("hit unrelated boundary while inserting constraint");
-        };
-        let other = if anchor == a { b } else { a };
-
-        // First triangle introduces (anchor, other) with w
-        let t0 =
-            if orient2d(&self.points[anchor], &self.points[other], &self.points[w]).is_positive() {
-                Triangle(anchor, other, w)
-            } else {
-                Triangle(anchor, w, other)
-            };
-
-        // Second triangle closes the fan on the boundary edge using the vertex of (u,v) not equal to anchor
-        let x = if u == anchor { v } else { u };
-        let t1 = if orient2d(&self.points[other], &self.points[x], &self.points[w]).is_positive() {
-            Triangle(other, x, w)
-        } else {
-            Triangle(other, w, x)
-        };
-
-        // Commit both triangles
-        let old = self.triangles[tri_idx];
-        self.triangles[tri_idx] = t0;
-        let t1_idx = self.triangles.len();
-        self.triangles.push(t1);
-
-        adj.replace_tri(tri_idx, old, t0);
-        adj.add_tri(t1_idx, t1);
-
-        Ok(())
+    /// Does an edge between vertices on either side of (a,b) separate a from b?
+    fn edge_crosses(&self, e: Edge, a: usize, b: usize) -> bool {
+        let (u, v) = (e.a(), e.b());
+        if u == a || u == b || v == a || v == b {
+            return false;
+        }
+        let su = orient2d(&self.points[a], &self.points[b], &self.points[u]);
+        let sv = orient2d(&self.points[a], &self.points[b], &self.points[v]);
+        (su.is_positive() && sv.is_negative()) || (su.is_negative() && sv.is_positive())
     }
 
     fn flip_shared_edge_with_adj(
@@ -773,7 +478,6 @@ where
         e: Edge,
         t0_idx: usize,
         t1_idx: usize,
-        constrained: &AHashSet<Edge>,
         adj: &mut Adj,
     ) -> Option<Edge>
     where
@@ -793,29 +497,17 @@ where
             return None;
         }
 
-        // Don’t create a constrained edge implicitly.
+        // Only a strictly convex quadrilateral can be flipped.
         let new_e = Edge::new(x, y);
-        if constrained.contains(&new_e) {
-            return None;
-        }
-
-        // Do not create an edge that passes through another vertex
-        if edge_has_mid_vertex(x, y, &self.points) {
-            return None;
-        }
-
         // Build new triangles (preserve CCW)
         let a0 = orient2d(&self.points[x], &self.points[u], &self.points[y]);
         let a1 = orient2d(&self.points[x], &self.points[y], &self.points[v]);
-        let t0_new = if a0.is_positive_or_zero() {
-            Triangle(x, u, y)
-        } else {
-            Triangle(x, y, u)
-        };
-        let t1_new = if a1.is_positive_or_zero() {
-            Triangle(x, y, v)
+        let (t0_new, t1_new) = if a0.is_positive() && a1.is_positive() {
+            (Triangle(x, u, y), Triangle(x, y, v))
+        } else if a0.is_negative() && a1.is_negative() {
+            (Triangle(x, y, u), Triangle(x, v, y))
         } else {
-            Triangle(x, v, y)
+            return None;
         };
 
         self.triangles[t0_idx] = t0_new;
@@ -826,21 +518,6 @@ where
     }
 }
 
-#[inline]
-fn third_vertex(t: Triangle, u: usize, v: usize) -> Option<usize> {
-    let vs = [t.0, t.1, t.2];
-    let mut count = 0;
-    let mut other = None;
-    for &w in &vs {
-        if w != u && w != v {
-            other = Some(w);
-        } else {
-            count += 1;
-        }
-    }
-    if count == 2 { other } else { None }
-}
-
 #[inline]
 fn other_across(t: Triangle, e: Edge) -> Option<usize> {
     let vs = [t.0, t.1, t.2];
@@ -852,234 +529,6 @@ fn tri_edges(t: Triangle) -> [(usize, usize); 3] {
     [(t.0, t.1), (t.1, t.2), (t.2, t.0)]
 }
 
-#[inline]
-fn tri_as_array(t: Triangle) -> [usize; 3] {
-    [t.0, t.1, t.2]
-}
-
-#[inline]
-fn has_vertex(t: Triangle, v: usize) -> bool {
-    t.0 == v || t.1 == v || t.2 == v
-}
-
-fn exit_edge_of_triangle_fast<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // Fast path using ball centers
-    if let (Some(ax), Some(ay), Some(bx), Some(by)) = (
-        points[a][0].as_f64_fast(),
-        points[a][1].as_f64_fast(),
-        points[b][0].as_f64_fast(),
-        points[b][1].as_f64_fast(),
-    ) {
-        // Use fast f64 computation for edge selection
-        return exit_edge_fast_f64(points, adj, tris, ti, ax, ay, bx, by);
-    }
-
-    // Fallback to exact
-    exit_edge_of_triangle(points, adj, tris, ti, a, b)
-}
-
-fn exit_edge_fast_f64<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    ax: f64,
-    ay: f64,
-    bx: f64,
-    by: f64,
-) -> Option<(Edge, Option<usize>)> {
-    let t = tris[ti];
-
-    // Fast f64 orientation tests
-    for (u, v) in [(t.0, t.1), (t.1, t.2), (t.2, t.0)] {
-        let ux = points[u][0].ball_center_f64();
-        let uy = points[u][1].ball_center_f64();
-        let vx = points[v][0].ball_center_f64();
-        let vy = points[v][1].ball_center_f64();
-
-        // Fast crossing test
-        let o1 = (bx - ax) * (uy - ay) - (by - ay) * (ux - ax);
-        let o2 = (bx - ax) * (vy - ay) - (by - ay) * (vx - ax);
-        let o3 = (vx - ux) * (ay - uy) - (vy - uy) * (ax - ux);
-        let o4 = (vx - ux) * (by - uy) - (vy - uy) * (bx - ux);
-
-        let eps = EPS * ((bx - ax).abs() + (by - ay).abs()).max(1.0);
-
-        if (o1 * o2 < -eps * eps) && (o3 * o4 < -eps * eps) {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
-/// Given current triangle index `ti`, decide the **one** edge we exit across,
-/// when walking from a -> b. Uses exact orient2d.
-/// Returns (crossed undirected edge, neighbor triangle index if interior).
-fn exit_edge_of_triangle<T: Scalar>(
-    points: &[Point2<T>],
-    adj: &Adj,
-    tris: &[Triangle],
-    ti: usize,
-    a: usize,
-    b: usize,
-) -> Option<(Edge, Option<usize>)>
-where
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    let t = tris[ti];
-    let vs = tri_as_array(t);
-    let pa = &points[a];
-    let pb = &points[b];
-
-    // Case A: a is a vertex of this triangle (common at start)
-    if has_vertex(t, a) {
-        // let the other two vertices be x,y (not equal to a).
-        let mut other = [0usize; 2];
-        let mut k = 0;
-        for &v in &vs {
-            if v != a {
-                other[k] = v;
-                k += 1;
-            }
-        }
-        let x = other[0];
-        let y = other[1];
-        // If segment (a,b) exits the triangle, it exits across the edge between the two "other" vertices
-        // iff orient(a,b,x) and orient(a,b,y) have opposite signs.
-        let s1 = orient2d(pa, pb, &points[x]);
-        let s2 = orient2d(pa, pb, &points[y]);
-
-        // Touching a vertex (one sign == 0): step through the edge adjacent to that vertex that is crossed.
-        if s1.is_zero() && s2.is_zero() {
-            // (a,b) is collinear with both -> (a,b) lies exactly along the side through a.
-            // Walk out through the edge that contains a and heads towards b.
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    // choose the directed edge (a,*) whose midpoint is most "forward" towards b
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    let o = orient2d(pa, pb, &mid);
-                    if !o.is_zero() {
-                        let e = Edge::new(u, v);
-                        let nei = adj
-                            .edge2tris
-                            .get(&e)
-                            .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                        return Some((e, nei));
-                    }
-                }
-            }
-            return None;
-        } else if s1.is_zero() || s2.is_zero() {
-            // Through vertex: go through the edge opposite the *other* vertex
-            let vtx = if s1.is_zero() { x } else { y };
-            // Opposite edge is the edge that does not contain vtx
-            let mut e_opt = None;
-            for (u, v) in tri_edges(t) {
-                if u != vtx && v != vtx {
-                    e_opt = Some(Edge::new(u, v));
-                    break;
-                }
-            }
-            if let Some(e) = e_opt {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        } else if (s1.is_positive()) != (s2.is_positive()) {
-            // Different signs -> exit across the edge (x,y) (the one NOT incident to a)
-            let e = Edge::new(x, y);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        } else {
-            // Both on same side: we do not leave through the opposite edge; try an edge incident to a
-            // Pick the incident edge whose midpoint lies most "forward" wrt (a->b)
-            let mut best: Option<(Edge, T)> = None;
-            for (u, v) in tri_edges(t) {
-                if u == a || v == a {
-                    let mid = Point2::<T>::from_vals([
-                        (&points[u][0] + &points[v][0]) * T::from(0.5),
-                        (&points[u][1] + &points[v][1]) * T::from(0.5),
-                    ]);
-                    // Compare by projection on direction (a->b)
-                    let dx = &pb[0] - &pa[0];
-                    let dy = &pb[1] - &pa[1];
-                    let sx = &mid[0] - &pa[0];
-                    let sy = &mid[1] - &pa[1];
-                    let proj = dx * sx + dy * sy;
-                    let cand = (Edge::new(u, v), proj.clone());
-                    if best.as_ref().map_or(true, |(_, p)| proj > *p) {
-                        best = Some(cand);
-                    }
-                }
-            }
-            if let Some((e, _)) = best {
-                let nei = adj
-                    .edge2tris
-                    .get(&e)
-                    .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-                return Some((e, nei));
-            }
-            return None;
-        }
-    }
-
-    // Case B: general triangle — test the three edges for proper crossing or interior touch
-    for (u, v) in tri_edges(t) {
-        let pu = &points[u];
-        let pv = &points[v];
-        let o1 = orient2d(pa, pb, pu);
-        let o2 = orient2d(pa, pb, pv);
-        let o3 = orient2d(pu, pv, pa);
-        let o4 = orient2d(pu, pv, pb);
-        let proper = (&o1 * &o2).is_negative() && (&o3 * &o4).is_negative();
-        let touch_inside = o1.is_zero() && (&o3 * &o4).is_negative()
-            || (o2.is_zero() && (&o3 * &o4).is_negative())
-            || (o3.is_zero() && (&o1 * &o2).is_negative())
-            || (o4.is_zero() && (&o1 * &o2).is_negative());
-        if proper || touch_inside {
-            let e = Edge::new(u, v);
-            let nei = adj
-                .edge2tris
-                .get(&e)
-                .and_then(|vv| vv.iter().copied().find(|&x| x != ti));
-            return Some((e, nei));
-        }
-    }
-    None
-}
-
 #[inline]
 fn on_segment<T: Scalar + PartialOrd>(a: &Point2<T>, b: &Point2<T>, p: &Point2<T>) -> bool
 where
@@ -1106,26 +555,6 @@ where
     p[0] >= minx && p[0] <= maxx && p[1] >= miny && p[1] <= maxy
 }
 
-#[inline]
-fn edge_has_mid_vertex<T: Scalar + PartialOrd>(i: usize, j: usize, pts: &[Point2<T>]) -> bool
-where
-    for<'x> &'x T: std::ops::Sub<&'x T, Output = T>
-        + std::ops::Mul<&'x T, Output = T>
-        + std::ops::Add<&'x T, Output = T>
-        + std::ops::Div<&'x T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    for k in 0..pts.len() {
-        if k == i || k == j {
-            continue;
-        }
-        if on_segment(&pts[i], &pts[j], &pts[k]) {
-            return true;
-        }
-    }
-    false
-}
-
 #[inline]
 fn param_t<T: Scalar>(a: &Point2<T>, b: &Point2<T>, p: &Point2<T>) -> T
 where
@@ -1528,7 +957,7 @@ where
         // accept it
         accepted.insert(ti);
 
-        // push its other two edges with **directed** wanted side = orient(i->j, k)
+        // push its other two edges, wanting the side across from this tri's apex k
         let t = dt_tris[ti];
         for (i, j, k) in [(t.0, t.1, t.2), (t.1, t.2, t.0), (t.2, t.0, t.1)] {
             // skip the edge we used to reach this tri
@@ -1545,7 +974,7 @@ where
                 0
             };
             if side_dir != 0 {
-                q.push_back((i, j, side_dir));
+                q.push_back((i, j, -side_dir));
             }
         }
     }
@@ -1553,37 +982,42 @@ where
     accepted
 }
 
-fn circumcircle_approx_fast<T: Scalar>(
+/// Sign of the in-circle determinant from double intervals, when they decide it
+fn incircle_sign_approx<T: Scalar>(
     a: &Point2<T>,
     b: &Point2<T>,
     c: &Point2<T>,
-) -> Option<(f64, f64, f64)> {
-    let ax = a[0].ball_center_f64();
-    let ay = a[1].ball_center_f64();
-    let bx = b[0].ball_center_f64();
-    let by = b[1].ball_center_f64();
-    let cx = c[0].ball_center_f64();
-    let cy = c[1].ball_center_f64();
-
-    if ![ax, ay, bx, by, cx, cy].iter().all(|x| x.is_finite()) {
-        return None;
-    }
-
-    let d = 2.0 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by));
-    if d.abs() < 1e-15 {
-        return None;
-    }
-
+    p: &Point2<T>,
+) -> Option<i8> {
+    // Offsets from p; `size` bounds their magnitude and `err` their absolute error
+    let mut d = [[0.0f64; 2]; 3];
+    let (mut size, mut err) = (0.0f64, 0.0f64);
+    for k in 0..2 {
+        let (plo, phi) = p[k].double_interval()?;
+        for (i, q) in [a, b, c].into_iter().enumerate() {
+            let (lo, hi) = q[k].double_interval()?;
+            let x = (lo * 0.5 + hi * 0.5) - (plo * 0.5 + phi * 0.5);
+            let slack = (lo.abs() + hi.abs() + plo.abs() + phi.abs()) * f64::EPSILON;
+            d[i][k] = x;
+            size = size.max(x.abs());
+            err = err.max((hi - lo) + (phi - plo) + slack);
+        }
+    }
+
+    let [[ax, ay], [bx, by], [cx, cy]] = d;
     let a2 = ax * ax + ay * ay;
     let b2 = bx * bx + by * by;
     let c2 = cx * cx + cy * cy;
-
-    let ux = (a2 * (by - cy) + b2 * (cy - ay) + c2 * (ay - by)) / d;
-    let uy = (a2 * (cx - bx) + b2 * (ax - cx) + c2 * (bx - ax)) / d;
-
-    let dx = ax - ux;
-    let dy = ay - uy;
-    let r2 = dx * dx + dy * dy;
-
-    Some((ux, uy, r2))
+    let det = ax * (by * c2 - b2 * cy) - ay * (bx * c2 - b2 * cx) + a2 * (bx * cy - by * cx);
+
+    // 12 products of four offsets each
+    let size = size + err;
+    let bound = size * size * size * (64.0 * err + 256.0 * f64::EPSILON * size);
+    if det > bound {
+        Some(1)
+    } else if det < -bound {
+        Some(-1)
+    } else {
+        None
+    }
 }
-- 
2.43.0


From 0561d59cb8aa7c5a762a9d021c7bdd947efb192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:58:07 +0000
Subject: [PATCH 24/36] fix: count ray crossings for point-in-mesh queries

point_in_mesh_3 counted directions with any hit instead of the parity of the
crossings, so a point in the hole of a ring or in a notch was reported inside.
point_in_mesh_2 tested the wrong edge and counted shared vertices twice.
cast_ray_3 reported faces that had been removed, and
cast_ray_from_vertex_in_triangle_3 had the edge parameter's sign reversed.
---
 src/mesh/topology.rs | 126 +++++++++++++++++++++++++------------------
 1 file changed, 73 insertions(+), 53 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index cb7dc4b..6a1b8d7 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -88,6 +88,15 @@ pub enum VertexRayResult<T: Scalar> {
     CollinearWithEdge(usize),
 }
 
+/// What a ray from a point meets on its way out
+enum RayCrossings {
+    /// The ray starts on a face
+    OnSurface,
+    /// The ray passes through an edge or a vertex
+    Degenerate,
+    Count(usize),
+}
+
 impl_mesh! {
     pub fn canonical_edge_indices(&self, he: usize) -> Option<(usize, usize)> {
         if he >= self.half_edges.len() {
@@ -556,41 +565,66 @@ impl_mesh! {
         p: &Point<T, N>,
     ) -> PointInMeshResult where T: Into<T>, Vector<T, N>: VectorOps<T, N>,
     {
-        let rays = [
-            Vector::<T, N>::from_vals(from_fn(|i| [T::one(), T::zero(), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::one(), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::one()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::from(-1.0), T::zero(), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::from(-1.0), T::zero()][i].clone())),
-            Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::from(-1.0)][i].clone())),
-        ];
-
-        let total_rays = rays.len();
-        let mut inside_count = 0usize;
-        let mut on_surface = false;
-
-        for r in rays {
-            match self.cast_ray_3(p, &r, tree, &None) {
-                IntersectionResult::Hit(_hit, t) => {
-                    if t.is_zero() {
-                        on_surface = true; // optionally: return PointInMeshResult::OnSurface immediately
-                    } else {
-                        // odd parity for this direction
-                        inside_count += 1;
-                    }
-                }
-                IntersectionResult::Miss => {
-                    // even parity for this direction (0), do nothing
+        // A direction whose ray meets an edge or a vertex cannot be counted; a plane through `p`
+        // contains at most two of the directions (1, k, k^2), so one of them always can.
+        let axes = (0..6).map(|r| -> [f64; 3] {
+            from_fn(|i| if i != r % 3 { 0.0 } else if r < 3 { 1.0 } else { -1.0 })
+        });
+        let general = (1..=self.edge_map.len() + 1).map(|k| [1.0, k as f64, (k * k) as f64]);
+
+        for dir in axes.chain(general) {
+            let dir = Vector::<T, N>::from_vals(from_fn(|i| T::from(dir[i])));
+            match self.ray_crossings(p, &dir, tree) {
+                RayCrossings::OnSurface => return PointInMeshResult::OnSurface,
+                RayCrossings::Degenerate => continue,
+                RayCrossings::Count(n) if n % 2 == 1 => return PointInMeshResult::Inside,
+                RayCrossings::Count(_) => return PointInMeshResult::Outside,
+            }
+        }
+
+        PointInMeshResult::Outside
+    }
+
+    /// Count the faces whose interior the ray crosses.
+    fn ray_crossings(
+        &self,
+        p: &Point<T, N>,
+        dir: &Vector<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> RayCrossings
+    where
+        Vector<T, N>: VectorOps<T, N>,
+    {
+        let far_multiplier = T::from(10e6); // same reach as cast_ray_3
+        let far_point = Point::<T, N>::from_vals(from_fn(|i| &p[i] + &(&dir[i] * &far_multiplier)));
+        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(p, &far_point);
+
+        let mut candidate_faces = Vec::new();
+        tree.query_valid(&ray_aabb, &mut candidate_faces);
+
+        let tol = T::query_tolerance();
+        let mut count = 0;
+        let mut degenerate = false;
+        for &fi in &candidate_faces {
+            if self.faces[*fi].removed {
+                continue;
+            }
+            let vs = self.face_vertices(*fi);
+            let tri = from_fn(|i| &self.vertices[vs[i]].position);
+            if let Some((t, u, v)) = ray_triangle_intersection(p, dir, tri, &None) {
+                if t.is_zero() {
+                    return RayCrossings::OnSurface;
                 }
+                let w = &T::one() - &(&u + &v);
+                degenerate |= [&u, &v, &w].iter().any(|l| !(*l - &tol).is_positive());
+                count += 1;
             }
         }
 
-        if on_surface {
-            PointInMeshResult::OnSurface
-        } else if inside_count > total_rays / 2 {
-            PointInMeshResult::Inside
+        if degenerate {
+            RayCrossings::Degenerate
         } else {
-            PointInMeshResult::Outside
+            RayCrossings::Count(count)
         }
     }
 
@@ -656,6 +690,9 @@ impl_mesh! {
         tree.query_valid(&ray_aabb, &mut candidate_faces);
 
         for &fi in &candidate_faces {
+            if self.faces[*fi].removed {
+                continue;
+            }
             let vs_idxs = self.face_vertices(*fi);
             let vs = [
                 &self.vertices[vs_idxs[0]].position,
@@ -743,35 +780,18 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
-
-        let p1 = &self.vertices[v1].position;
-        let p2 = &self.vertices[v2].position;
+        let p1 = &self.vertices[self.source(he)].position;
+        let p2 = &self.vertices[self.target(he)].position;
 
         // Ray casting from point horizontally to the right
-        // Check if edge crosses the horizontal ray
-
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Check if edge crosses the horizontal ray; an endpoint at the ray's level counts as
+        // below it, so that a vertex shared by two edges is not crossed twice
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
-        if dy.is_zero() {
-            return false;
-        }
-
         let t = &(&point[1] - &p1[1]) / &dy;
         let x_intersect = &p1[0] + &(&t * &(&p2[0] - &p1[0]));
 
@@ -948,7 +968,7 @@ impl_mesh! {
 
         let inv_det = T::one() / det;
         let t = &rhs.cross(&edge_vec).dot(&face_normal) * &inv_det;
-        let u = &geodesic_dir.cross(&rhs).dot(&face_normal) * &inv_det;
+        let u = &rhs.cross(&geodesic_dir).dot(&face_normal) * &inv_det;
 
         // Validate solution
         if t <= tol || u < T::zero() || u > T::one() {
-- 
2.43.0


From 405a496612c7fdf1730f8353931683626b136a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:36 +0000
Subject: [PATCH 25/36] fix: locate surface points on the face that contains
 them

find_valid_face accepted any face the point projects into, also on the far
side of the mesh, and panicked on planar meshes in the scan over all faces.
find_valid_half_edge could return an edge that does not touch the vertex at
which the point lies.
---
 src/mesh/topology.rs | 111 ++++++++++++++++++++++++++++---------------
 1 file changed, 73 insertions(+), 38 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 6a1b8d7..27620da 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1348,12 +1348,10 @@ impl_mesh! {
                 return true;
             }
 
-            // collinear A,B,C => degenerate (3D-safe; for 2D z=0 it still works)
-            let ab3 = ab.0.as_vector_3();
-            let ac3 = ac.0.as_vector_3();
-            let n = ab3.cross(&ac3);               // compute once
+            // collinear A,B,C => degenerate, in any dimension (Lagrange identity)
             // exact test with LazyExact: only true if *exactly* collinear
-            n[0].is_zero() && n[1].is_zero() && n[2].is_zero()
+            let abac = ab.dot(&ac);
+            (&(&ab.dot(&ab) * &ac.dot(&ac)) - &(&abac * &abac)).is_zero()
         }
 
         // Exact barycentrics (l0,l1,l2) with respect to face f, using current vertex positions
@@ -1367,6 +1365,26 @@ impl_mesh! {
             ).unwrap()
         };
 
+        // Barycentrics are those of the projection; a face contains the point only if it lies in its plane
+        let in_plane = |f: usize| -> bool {
+            if N != 3 {
+                return true;
+            }
+            let [i0,i1,i2] = self.face_vertices(f);
+            let a = &self.vertices[i0].position;
+            let ab = (&self.vertices[i1].position - a).as_vector_3();
+            let ac = (&self.vertices[i2].position - a).as_vector_3();
+            let ap = (point - a).as_vector_3();
+            let n = ab.cross(&ac);
+            let n2 = n.dot(&n);
+            if n2.is_zero() {
+                return false;
+            }
+            let d = n.dot(&ap);
+            let tol = T::tolerance();
+            !(&(&(&d * &d) / &n2) - &(&tol * &tol)).is_positive()
+        };
+
         // neighbors of a live face via twins (skip borders / removed faces)
         let push_live_neighbors = |mesh: &Mesh<T, N>, f: usize, q: &mut VecDeque<usize>, seen: &AHashSet<usize>| {
             let (e0,e1,e2) = self.face_edges(f);
@@ -1383,6 +1401,7 @@ impl_mesh! {
         // --- BFS over descendants + neighbors ---
         let mut q: VecDeque<usize> = VecDeque::new();
         let mut seen: AHashSet<usize> = AHashSet::new();
+        let mut by_projection: Option<usize> = None; // first face the point projects into
         q.push_back(start_face);
 
         let mut steps = 0usize;
@@ -1396,7 +1415,11 @@ impl_mesh! {
                 let (l0, l1, l2) = bary_live(f);
                 let neg = |x: &T| -> bool { x.is_negative() };
 
-                if neg(&l0) || neg(&l1) || neg(&l2) {
+                let off = neg(&l0) || neg(&l1) || neg(&l2);
+                if off || !in_plane(f) {
+                    if !off && by_projection.is_none() {
+                        by_projection = Some(f);
+                    }
                     // Off this face; explore neighbors
                     push_live_neighbors(self, f, &mut q, &seen);
                     continue;
@@ -1443,39 +1466,47 @@ impl_mesh! {
         }
 
         // --- Global fallback: scan all live faces and pick the first match by priority ---
-        let mut best_edge:   Option<(usize, usize, T)> = None; // (f, he, u)
-        let mut best_vertex: Option<(usize, usize)>    = None; // (f, v_id)
-        let mut best_inside: Option<(usize, (T, T, T))> = None; // (f, bary)
-
-        for f in 0..self.faces.len() {
-            if self.faces[f].removed { continue; }
-            if live_face_degenerate(self, f) { continue; }
-
-            let (l0,l1,l2) = bary_live(f);
-            let neg = |x: &T| -> bool { x.is_negative() };
-            if neg(&l0) || neg(&l1) || neg(&l2) { continue; }
-
-            let zc = l0.is_zero() as u8 + l1.is_zero() as u8 + l2.is_zero() as u8;
-
-            if zc == 1 && best_edge.is_none() {
-                if let Some((he_guess, mut u_bary2)) = self.edge_and_u_from_bary_zero(f, &l0, &l1, &l2) {
-                    if u_bary2.is_negative() { u_bary2 = zero.clone(); }
-                    if (&u_bary2 - &one).is_positive() { u_bary2 = one.clone(); }
-                    best_edge = Some((f, he_guess, u_bary2));
-                    break; // edge has highest priority
-                }
-            } else if zc >= 2 && best_vertex.is_none() {
-                if let Some(v_id) = self.vertex_from_bary_zero(f, &l0, &l1, &l2) {
-                    best_vertex = Some((f, v_id));
+        // A point off every face's plane (rounding) is located by its projection.
+        for projected in [false, true] {
+            if let (true, Some(f)) = (projected, by_projection) {
+                return self.location_on_face(f, point);
+            }
+
+            let mut best_edge:   Option<(usize, usize, T)> = None; // (f, he, u)
+            let mut best_vertex: Option<(usize, usize)>    = None; // (f, v_id)
+            let mut best_inside: Option<(usize, (T, T, T))> = None; // (f, bary)
+
+            for f in 0..self.faces.len() {
+                if self.faces[f].removed { continue; }
+                if live_face_degenerate(self, f) { continue; }
+
+                let (l0,l1,l2) = bary_live(f);
+                let neg = |x: &T| -> bool { x.is_negative() };
+                if neg(&l0) || neg(&l1) || neg(&l2) { continue; }
+                if !projected && !in_plane(f) { continue; }
+
+                let zc = l0.is_zero() as u8 + l1.is_zero() as u8 + l2.is_zero() as u8;
+
+                if zc == 1 && best_edge.is_none() {
+                    if let Some((he_guess, mut u_bary2)) = self.edge_and_u_from_bary_zero(f, &l0, &l1, &l2) {
+                        if u_bary2.is_negative() { u_bary2 = zero.clone(); }
+                        if (&u_bary2 - &one).is_positive() { u_bary2 = one.clone(); }
+                        best_edge = Some((f, he_guess, u_bary2));
+                        break; // edge has highest priority
+                    }
+                } else if zc >= 2 && best_vertex.is_none() {
+                    if let Some(v_id) = self.vertex_from_bary_zero(f, &l0, &l1, &l2) {
+                        best_vertex = Some((f, v_id));
+                    }
+                } else if zc == 0 && best_inside.is_none() {
+                    best_inside = Some((f, (l0, l1, l2)));
                 }
-            } else if zc == 0 && best_inside.is_none() {
-                best_inside = Some((f, (l0, l1, l2)));
             }
-        }
 
-        if let Some((f, he, u)) = best_edge   { return FindFaceResult::OnEdge { f, he, u }; }
-        if let Some((f, v))     = best_vertex { return FindFaceResult::OnVertex { f, v }; }
-        if let Some((f, bary))  = best_inside { return FindFaceResult::Inside { f, bary }; }
+            if let Some((f, he, u)) = best_edge   { return FindFaceResult::OnEdge { f, he, u }; }
+            if let Some((f, v))     = best_vertex { return FindFaceResult::OnVertex { f, v }; }
+            if let Some((f, bary))  = best_inside { return FindFaceResult::Inside { f, bary }; }
+        }
 
         panic!("find_valid_face: could not locate a face/edge/vertex for the point starting from {}", start_face);
     }
@@ -1601,8 +1632,12 @@ impl_mesh! {
                 FindFaceResult::OnEdge { he, .. } => {
                     return he;
                 },
-                FindFaceResult::OnVertex { f, .. } => {
-                    return self.half_edges[self.faces[f].half_edge].twin;
+                FindFaceResult::OnVertex { f, v } => {
+                    // the edge of that face that ends at the vertex
+                    let (e0, e1, e2) = self.face_edges(f);
+                    return if target_of(self, e0) == v { e0 }
+                        else if target_of(self, e1) == v { e1 }
+                        else { e2 };
                 },
                 FindFaceResult::Inside { f, .. } => {
                     // Choose the boundary edge of that face that is closest.
-- 
2.43.0


From ae5ca72a89537f04d8b08f3043c77b8370183f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:28 +0000
Subject: [PATCH 26/36] fix: classify boolean faces region by region

Faces were classified by flooding from a single seed face, which mislabels
every piece that is not connected to it without crossing the intersection
curve. Each region bounded by the curve is now classified on its own by the
position of one of its faces relative to the other mesh.
---
 src/mesh_processing/boolean.rs | 679 +++++++--------------------------
 1 file changed, 131 insertions(+), 548 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e16a2c6..acba06f 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -41,7 +41,7 @@ use crate::{
             ContactOnTri, TriPrecomp, TriTriIntersectionDetailed, segment_intersect_2d,
             tri_tri_intersection_with_precomp_detailed,
         },
-        vector::{Cross2, Cross3, Vector, VectorOps, vector_cross},
+        vector::{Cross2, Cross3, Vector, VectorOps},
     },
     mesh::{
         basic_types::{Mesh, PointInMeshResult, VertexSource},
@@ -101,6 +101,26 @@ pub enum BooleanOp {
     Difference,
 }
 
+/// Where a face lies relative to the other mesh
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum FaceSide {
+    Outside,
+    Inside,
+    /// On the surface, facing the same way
+    OnSame,
+    /// On the surface, facing the opposite way
+    OnOpposite,
+}
+
+impl FaceSide {
+    fn from_inside(inside: &[bool]) -> Vec<Self> {
+        inside
+            .iter()
+            .map(|&i| if i { Self::Inside } else { Self::Outside })
+            .collect()
+    }
+}
+
 impl<T: Scalar, const N: usize> Mesh<T, N>
 where
     Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
@@ -112,170 +132,98 @@ where
         + Div<&'a T, Output = T>
         + Neg<Output = T>,
 {
+    /// Side of `other` on which each face lies. The intersection curve cuts the surface into regions
+    /// that lie on one side as a whole, so one point decides for all faces of a region.
     fn classify_faces_3(
-        &mut self,
+        &self,
         other: &Mesh<T, N>,
-        intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        coplanar_triangles: &Vec<CoplanarTriangle>,
-        include_on_surface: bool,
-    ) -> Vec<bool> {
-        // build adjacency & boundary‐map
-        let tree_b = AabbTree::<T, N, _, _>::build(
-            (0..other.faces.len())
-                .map(|i| {
-                    let aabb_n = other.face_aabb(i);
-                    let min = aabb_n.min();
-                    let max = aabb_n.max();
-                    // Convert Aabb<T, N, Point<T, N>> to Aabb<T, 3, Point<T, 3>>
-                    let aabb3 = Aabb::<T, N, Point<T, N>>::from_points(
-                        &Point::<T, N>::from_vals(from_fn(|i| min[i].clone())),
-                        &Point::<T, N>::from_vals(from_fn(|i| max[i].clone())),
-                    );
-                    (aabb3, i)
-                })
-                .collect::<Vec<(Aabb<T, N, Point<T, N>>, usize)>>(),
-        );
+        intersection_segments: &[IntersectionSegment<T, N>],
+    ) -> Vec<FaceSide> {
+        let mut curve = AHashSet::new();
+        for seg in intersection_segments {
+            if let (Some(v0), Some(v1)) = (seg.a.resulting_vertex, seg.b.resulting_vertex) {
+                curve.insert(ordered(v0, v1));
+            }
+        }
 
+        let tree_b = other.build_face_tree();
+        let mut side = vec![FaceSide::Outside; self.faces.len()];
         let mut visited = vec![false; self.faces.len()];
-        let mut inside = vec![false; self.faces.len()];
 
-        // Non-coplanar intersections first.
-        if intersection_segments.is_empty() {
-            for f in 0..self.faces.len() {
-                if self.faces[f].removed {
-                    continue;
-                }
-                let c = self.face_centroid_fast(f);
-                match other.point_in_mesh_3(&tree_b, &c) {
-                    PointInMeshResult::Inside => inside[f] = true,
-                    PointInMeshResult::OnSurface if include_on_surface => inside[f] = true,
-                    _ => {}
-                }
-            }
-            return inside;
-        } else {
-            let mut boundary_faces = AHashSet::new();
-            for seg in intersection_segments {
-                let v0 = seg.a.resulting_vertex.unwrap();
-                let v1 = seg.b.resulting_vertex.unwrap();
-
-                if let Some(&he) = self.edge_map.get(&(v0, v1)) {
-                    if let Some(f0) = self.half_edges[he].face {
-                        boundary_faces.insert(f0);
-                    }
-                    if let Some(f1) = self.half_edges[self.half_edges[he].twin].face {
-                        boundary_faces.insert(f1);
-                    }
-                }
+        for seed in 0..self.faces.len() {
+            if visited[seed] || self.faces[seed].removed {
+                continue;
             }
 
-            // 3) pick a seed face that lies inside B
-            let seed_result = Self::get_seed_face_3(
-                &self,
-                &other,
-                &tree_b,
-                intersection_segments,
-                &boundary_faces,
-                include_on_surface,
-            );
-
-            if seed_result.is_none() {
-                for (f, face) in self.faces.iter().enumerate() {
-                    if face.removed {
+            // iterative flood-fill without crossing the curve
+            let mut region = vec![seed];
+            visited[seed] = true;
+            let mut next = 0;
+            while next < region.len() {
+                for he in self.face_half_edges(region[next]) {
+                    if curve.contains(&ordered(self.source(he), self.target(he))) {
                         continue;
                     }
-                    let c = self.face_centroid_fast(f);
-                    match other.point_in_mesh_3(&tree_b, &c) {
-                        PointInMeshResult::Inside => inside[f] = true,
-                        PointInMeshResult::OnSurface if include_on_surface => inside[f] = true,
-                        _ => {}
+                    if let Some(nbr) = self.half_edges[self.half_edges[he].twin].face {
+                        if !visited[nbr] && !self.faces[nbr].removed {
+                            visited[nbr] = true;
+                            region.push(nbr);
+                        }
                     }
                 }
-                return inside;
+                next += 1;
             }
 
-            let (_seed_intersection_idx, selected_face) = seed_result.unwrap();
-
-            let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
-            for seg_idx in 0..intersection_segments.len() {
-                let seg = &intersection_segments[seg_idx];
-                if seg[0].resulting_vertex == seg[1].resulting_vertex {
-                    continue; // degenerate segment
+            // A face may touch `other` with its centroid only; the region lies on the surface if all do
+            let mut region_side = None;
+            for &f in &region {
+                match other.point_in_mesh_3(&tree_b, &self.face_centroid_fast(f)) {
+                    PointInMeshResult::Inside => region_side = Some(FaceSide::Inside),
+                    PointInMeshResult::Outside => region_side = Some(FaceSide::Outside),
+                    PointInMeshResult::OnSurface => continue,
                 }
-                let he = self
-                    .edge_map
-                    .get(&(
-                        seg.a.resulting_vertex.unwrap(),
-                        seg.b.resulting_vertex.unwrap(),
-                    ))
-                    .expect("Edge must exist in edge_map");
-
-                let f0 = self.half_edges[*he]
-                    .face
-                    .expect("Half-edge must have a face");
-                let f1 = self.half_edges
-                    [self.find_valid_half_edge(self.half_edges[*he].twin, &seg.segment.b)]
-                .face
-                .expect("Half-edge must have a face");
-
-                face_pairs.entry(f0).or_default().push(f1);
-                face_pairs.entry(f1).or_default().push(f0);
+                break;
             }
-
-            // 4) iterative flood‐fill without crossing the boundary_map
-            let mut queue = VecDeque::new();
-
-            // seed found as before
-            visited[selected_face] = true;
-            inside[selected_face] = true;
-            queue.push_back(selected_face);
-            let mut num_visited = 1;
-
-            while let Some(curr) = queue.pop_front() {
-                for nbr in self.adjacent_faces(curr) {
-                    if visited[nbr] {
-                        continue;
-                    }
-
-                    let paired = face_pairs.get(&curr);
-                    // skip exactly the neighbor that comes from the same segment split
-                    if let Some(pv) = paired {
-                        if pv.iter().any(|&pf| pf == nbr) {
-                            // this nbr is the other half of a segment splitting curr
-                            continue;
-                        }
-                    }
-
-                    // otherwise, it's a genuine inside‐region adjacency
-                    visited[nbr] = true;
-                    inside[nbr] = true;
-                    num_visited += 1;
-                    queue.push_back(nbr);
-                }
+            for f in region {
+                side[f] = match region_side {
+                    Some(region_side) => region_side,
+                    None => self.side_on_surface(f, other, &tree_b),
+                };
             }
-
-            println!(
-                "Flood-fill visited {} faces out of {}",
-                num_visited,
-                self.faces.len()
-            );
         }
 
-        if include_on_surface {
-            // Now do co-planar intersections.
-            for triangle in coplanar_triangles {
-                let face = self.face_from_vertices(
-                    triangle.verts[0],
-                    triangle.verts[1],
-                    triangle.verts[2],
-                );
-                if face != usize::MAX {
-                    inside[face] = true;
-                }
+        side
+    }
+
+    /// Whether a face lying on the surface of `other` faces the same way as the surface does there
+    fn side_on_surface(
+        &self,
+        f: usize,
+        other: &Mesh<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> FaceSide {
+        let n = self.face_normal(f);
+        let c = self.face_centroid_fast(f);
+        let mut candidates = Vec::new();
+        tree.query(&Aabb::from_points(&c, &c), &mut candidates);
+
+        for &g in &candidates {
+            if other.faces[*g].removed {
+                continue;
+            }
+            let m = other.face_normal(*g);
+            let d = n.dot(&m);
+            let parallel = (&(&d * &d) - &(&n.dot(&n) * &m.dot(&m))).is_zero();
+            if parallel && other.barycentric_coords_on_face(*g, &c).is_some() {
+                return if d.is_positive() {
+                    FaceSide::OnSame
+                } else {
+                    FaceSide::OnOpposite
+                };
             }
         }
 
-        inside
+        FaceSide::OnSame
     }
 
     fn classify_faces_2(
@@ -811,156 +759,59 @@ where
             vid_map.insert((VertexSource::A, i), ni);
         }
 
-        // Build chains
-        let start = Instant::now();
-        let mut a_coplanars = Self::build_links(&a, &mut intersection_segments_a);
-        let mut b_coplanars = Self::build_links(&b, &mut intersection_segments_b);
-        println!("Chains built in {:.2?}", start.elapsed());
+        // Add B vertices
+        for (i, v) in b.vertices.iter().enumerate() {
+            let ni = result.add_vertex(v.position.clone());
+            vid_map.insert((VertexSource::B, i), ni);
+        }
 
         // Classify faces using topological method
         let start = Instant::now();
-        let a_classification = {
-            if N == 3 {
-                a.classify_faces_3(&b, &mut intersection_segments_a, &mut a_coplanars, true)
-            } else {
-                a.classify_faces_2(&b, &intersection_segments_a)
-            }
-        };
-
-        println!(
-            "A faces classified inside intersection loops in {:.2?}",
-            start.elapsed()
-        );
-
-        let inside = match op {
-            BooleanOp::Union => false,
-            BooleanOp::Intersection => true,
-            BooleanOp::Difference => false,
-        };
-
-        let include_on_surface = match op {
-            BooleanOp::Union => true,
-            BooleanOp::Intersection => true,
-            BooleanOp::Difference => false,
+        let (sides_a, sides_b) = if N == 3 {
+            (
+                a.classify_faces_3(&b, &intersection_segments_a),
+                b.classify_faces_3(&a, &intersection_segments_b),
+            )
+        } else {
+            (
+                FaceSide::from_inside(&a.classify_faces_2(&b, &intersection_segments_a)),
+                FaceSide::from_inside(&b.classify_faces_2(&a, &intersection_segments_b)),
+            )
         };
+        println!("Faces classified in {:.2?}", start.elapsed());
 
-        for (fa, fa_inside) in a_classification.iter().enumerate() {
+        // Where the surfaces coincide, A's faces stand for both
+        for (fa, side) in sides_a.iter().enumerate() {
             if a.faces[fa].removed {
                 continue;
             }
-            if *fa_inside == inside {
-                let vs = a.face_vertices(fa);
-                result.add_triangle(
-                    vid_map[&(VertexSource::A, vs[0])],
-                    vid_map[&(VertexSource::A, vs[1])],
-                    vid_map[&(VertexSource::A, vs[2])],
-                );
+            let keep = match op {
+                BooleanOp::Union => matches!(side, FaceSide::Outside | FaceSide::OnSame),
+                BooleanOp::Intersection => matches!(side, FaceSide::Inside | FaceSide::OnSame),
+                BooleanOp::Difference => matches!(side, FaceSide::Outside | FaceSide::OnOpposite),
+            };
+            if keep {
+                let vs = a.face_vertices(fa).map(|v| vid_map[&(VertexSource::A, v)]);
+                result.add_triangle(vs[0], vs[1], vs[2]);
             }
         }
 
-        // Handle B faces based on operation
-        match op {
-            BooleanOp::Union => {
-                // Add B vertices and classify B faces
-                for (i, v) in b.vertices.iter().enumerate() {
-                    let ni = result.add_vertex(v.position.clone());
-                    vid_map.insert((VertexSource::B, i), ni);
-                }
-
-                let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
-                } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
-                };
-
-                for (fb, inside) in b_classification.iter().enumerate() {
-                    if b.faces[fb].removed {
-                        continue;
-                    }
-                    if !*inside {
-                        let vs = b.face_vertices(fb);
-                        result.add_triangle(
-                            vid_map[&(VertexSource::B, vs[0])],
-                            vid_map[&(VertexSource::B, vs[1])],
-                            vid_map[&(VertexSource::B, vs[2])],
-                        );
-                    }
-                }
-            }
-            BooleanOp::Intersection => {
-                // Similar to Union but with intersection logic
-                for (i, v) in b.vertices.iter().enumerate() {
-                    let ni = result.add_vertex(v.position.clone());
-                    vid_map.insert((VertexSource::B, i), ni);
-                }
-
-                let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
-                } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
-                };
-                for (fb, inside) in b_classification.iter().enumerate() {
-                    if b.faces[fb].removed {
-                        continue;
-                    }
-                    if *inside {
-                        let vs = b.face_vertices(fb);
-                        result.add_triangle(
-                            vid_map[&(VertexSource::B, vs[0])],
-                            vid_map[&(VertexSource::B, vs[1])],
-                            vid_map[&(VertexSource::B, vs[2])],
-                        );
-                    }
-                }
+        for (fb, side) in sides_b.iter().enumerate() {
+            if b.faces[fb].removed {
+                continue;
             }
-            BooleanOp::Difference => {
-                // Add B vertices and flip B faces that are inside A
-                for (i, v) in b.vertices.iter().enumerate() {
-                    let ni = result.add_vertex(v.position.clone());
-                    vid_map.insert((VertexSource::B, i), ni);
-                }
-
-                let start = Instant::now();
-                let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
+            let keep = match op {
+                BooleanOp::Union => matches!(side, FaceSide::Outside),
+                BooleanOp::Intersection | BooleanOp::Difference => matches!(side, FaceSide::Inside),
+            };
+            if keep {
+                let vs = b.face_vertices(fb).map(|v| vid_map[&(VertexSource::B, v)]);
+                if op == BooleanOp::Difference {
+                    // Flip face orientation for caps
+                    result.add_triangle(vs[2], vs[1], vs[0]);
                 } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
-                };
-
-                println!("B CLASSIFICATION:");
-                for (fb, inside) in b_classification.iter().enumerate() {
-                    if b.faces[fb].removed {
-                        continue;
-                    }
-                    if *inside {
-                        let vs = b.face_vertices(fb);
-                        // Flip face orientation for caps
-                        result.add_triangle(
-                            vid_map[&(VertexSource::B, vs[2])],
-                            vid_map[&(VertexSource::B, vs[1])],
-                            vid_map[&(VertexSource::B, vs[0])],
-                        );
-                    }
+                    result.add_triangle(vs[0], vs[1], vs[2]);
                 }
-                println!(
-                    "B faces classified inside intersection loops in {:.2?}",
-                    start.elapsed()
-                );
             }
         }
 
@@ -977,183 +828,6 @@ where
         result
     }
 
-    /// Build clean links between "intersection_segments" in-place. Removing coplanars from the collection.
-    /// Returns a separate vector of vectors of intersections that are coplanar and form graphs.
-    /// The coplanar segments are grouped by a shared plane.
-    fn build_links(
-        mesh: &Mesh<T, N>,
-        intersection_segments: &mut Vec<IntersectionSegment<T, N>>,
-    ) -> Vec<CoplanarTriangle> {
-        if intersection_segments.is_empty() {
-            return Vec::new();
-        }
-
-        if N == 2 {
-            let mut vertex_to_segments: AHashMap<usize, Vec<usize>> = AHashMap::new();
-
-            for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-                let [v0, v1] = [
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ];
-                vertex_to_segments.entry(v0).or_default().push(seg_idx);
-                vertex_to_segments.entry(v1).or_default().push(seg_idx);
-            }
-
-            for (seg_idx, seg) in intersection_segments.iter_mut().enumerate() {
-                let [v0, v1] = [
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ];
-                let mut connected_segments = AHashSet::new();
-
-                if let Some(segments) = vertex_to_segments.get(&v0) {
-                    for &other_idx in segments {
-                        if other_idx != seg_idx {
-                            connected_segments.insert(other_idx);
-                        }
-                    }
-                }
-                if let Some(segments) = vertex_to_segments.get(&v1) {
-                    for &other_idx in segments {
-                        if other_idx != seg_idx {
-                            connected_segments.insert(other_idx);
-                        }
-                    }
-                }
-
-                seg.links.extend(connected_segments);
-            }
-
-            return Vec::new();
-        }
-
-        // First let's drain the coplanar segments into a separate structure
-        let mut coplanar_groups: AHashMap<Plane<T, N>, Vec<IntersectionSegment<T, N>>> =
-            AHashMap::new();
-
-        println!(
-            "intersection_segments.len() = {}",
-            intersection_segments.len()
-        );
-        let mut i = 0;
-        while i < intersection_segments.len() {
-            if intersection_segments[i].coplanar {
-                let seg = intersection_segments.remove(i);
-                let edge = mesh.edge_map.get(&(
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ));
-                if let Some(half_edge) = edge {
-                    if let Some(face_0) = mesh.half_edges[*half_edge].face {
-                        let plane_key = mesh.plane_from_face(face_0).canonicalized();
-                        coplanar_groups
-                            .entry(plane_key)
-                            .or_default()
-                            .push(seg.clone());
-                    }
-                    if let Some(face_1) = mesh.half_edges[mesh.half_edges[*half_edge].twin].face {
-                        let plane_key = mesh.plane_from_face(face_1).canonicalized();
-                        coplanar_groups.entry(plane_key).or_default().push(seg);
-                    }
-                }
-            } else {
-                i += 1;
-            }
-        }
-        println!(
-            "intersection_segments.len() = {}",
-            intersection_segments.len()
-        );
-
-        let mut vertex_to_segments: AHashMap<usize, Vec<usize>> = AHashMap::new();
-
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let [v0, v1] = [
-                seg.a.resulting_vertex.unwrap(),
-                seg.b.resulting_vertex.unwrap(),
-            ];
-            vertex_to_segments.entry(v0).or_default().push(seg_idx);
-            vertex_to_segments.entry(v1).or_default().push(seg_idx);
-        }
-
-        // === NON-COPLANAR SEGMENTS: Build double-linked structure ===
-        for (seg_idx, seg) in intersection_segments.iter_mut().enumerate() {
-            let [v0, v1] = [
-                seg.a.resulting_vertex.unwrap(),
-                seg.b.resulting_vertex.unwrap(),
-            ];
-            let mut connected_segments = AHashSet::new();
-
-            if let Some(segments) = vertex_to_segments.get(&v0) {
-                for &other_idx in segments {
-                    if other_idx != seg_idx {
-                        connected_segments.insert(other_idx);
-                    }
-                }
-            }
-            if let Some(segments) = vertex_to_segments.get(&v1) {
-                for &other_idx in segments {
-                    if other_idx != seg_idx {
-                        connected_segments.insert(other_idx);
-                    }
-                }
-            }
-
-            let mut links: Vec<usize> = connected_segments.into_iter().collect();
-            links.sort_unstable();
-
-            seg.links.extend_from_slice(&links);
-        }
-
-        let mut triangles_per_group: Vec<CoplanarTriangle> = Vec::new();
-        for (_plane, group) in &coplanar_groups {
-            if group.len() >= 3 {
-                let triangles = extract_triangles_in_group(mesh, group);
-                triangles_per_group.extend(triangles);
-            }
-        }
-
-        // panic!("testing");
-
-        triangles_per_group
-    }
-
-    fn get_seed_face_3(
-        a: &Mesh<T, N>,
-        b: &Mesh<T, N>,
-        tree_b: &AabbTree<T, N, Point<T, N>, usize>,
-        intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        boundary_faces: &AHashSet<usize>,
-        include_on_surface: bool,
-    ) -> Option<(usize, usize)> {
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let v0 = seg.a.resulting_vertex.unwrap();
-            let v1 = seg.b.resulting_vertex.unwrap();
-
-            if let Some(&he) = a.edge_map.get(&(v0, v1)) {
-                for &face_id in &[
-                    a.half_edges[he].face,
-                    a.half_edges[a.half_edges[he].twin].face,
-                ] {
-                    if let Some(f) = face_id {
-                        if boundary_faces.contains(&f) {
-                            let centroid = a.face_centroid_fast(f);
-                            match b.point_in_mesh_3(tree_b, &centroid) {
-                                PointInMeshResult::Inside => return Some((seg_idx, f)),
-                                PointInMeshResult::OnSurface if include_on_surface => {
-                                    return Some((seg_idx, f));
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                }
-            }
-        }
-        None
-    }
-
     fn get_seed_face_2(
         a: &Mesh<T, N>,
         b: &Mesh<T, N>,
@@ -1274,101 +948,10 @@ pub fn remove_duplicate_and_invalid_segments<T: Scalar + Eq + Hash, const N: usi
     }
 }
 
-#[derive(Debug, Clone, Copy)]
-pub struct CoplanarTriangle {
-    verts: [usize; 3], // (a,b,c) with a<b<c
-}
-
 fn ordered(a: usize, b: usize) -> (usize, usize) {
     if a < b { (a, b) } else { (b, a) }
 }
 
-fn extract_triangles_in_group<T: Scalar, const N: usize>(
-    mesh: &Mesh<T, N>,
-    group: &[IntersectionSegment<T, N>],
-) -> Vec<CoplanarTriangle>
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // 1) adjacency and one seg index per undirected edge
-    let mut adj: AHashMap<usize, AHashSet<usize>> = AHashMap::new();
-    let mut edge_to_seg: AHashMap<(usize, usize), usize> = AHashMap::new();
-
-    for (ei, seg) in group.iter().enumerate() {
-        let [v0, v1] = [
-            seg.a.resulting_vertex.unwrap(),
-            seg.b.resulting_vertex.unwrap(),
-        ];
-        adj.entry(v0).or_default().insert(v1);
-        adj.entry(v1).or_default().insert(v0);
-        edge_to_seg.entry(ordered(v0, v1)).or_insert(ei);
-    }
-
-    // quick accessor for point coords
-    let get_p = |i: usize| &mesh.vertices[i].position;
-
-    // 2) enumerate unique triangles a<b<c s.t. (a,b), (a,c), (b,c) are edges
-    let mut verts: Vec<usize> = adj.keys().copied().collect();
-    verts.sort_unstable();
-
-    let mut out = Vec::new();
-
-    for (_, &a) in verts.iter().enumerate() {
-        // neighbors of a
-        let mut na: Vec<usize> = adj[&a].iter().copied().collect();
-        na.sort_unstable();
-
-        for (bi, &b) in na.iter().enumerate() {
-            if b <= a {
-                continue;
-            }
-
-            // candidates c are neighbors of a with c>b
-            for &c in na.iter().skip(bi + 1) {
-                if c <= b {
-                    continue;
-                }
-
-                // edge (b,c) must exist to close the triangle
-                if !adj.get(&b).map_or(false, |nb| nb.contains(&c)) {
-                    continue;
-                }
-
-                // 3) reject collinear (degenerate) triangles
-                let ab = (get_p(b) - get_p(a)).as_vector();
-                let ac = (get_p(c) - get_p(a)).as_vector();
-
-                let cr = vector_cross(&ab, &ac);
-
-                let area2 = cr.dot(&cr); // squared area
-                if area2 == T::zero() {
-                    // exact-zero ok for rationals
-                    continue;
-                }
-
-                // 4) pick one segment index per edge
-                let e_ab = *edge_to_seg.get(&ordered(a, b)).unwrap();
-                let e_bc = *edge_to_seg.get(&ordered(b, c)).unwrap();
-                let e_ca = *edge_to_seg.get(&ordered(c, a)).unwrap();
-
-                // (paranoia) ensure distinct segment indices
-                if e_ab == e_bc || e_bc == e_ca || e_ab == e_ca {
-                    continue;
-                }
-
-                out.push(CoplanarTriangle { verts: [a, b, c] });
-            }
-        }
-    }
-
-    out
-}
-
 #[inline(always)]
 fn bucket_u(u: f64, eps: f64) -> i64 {
     // Quantize to tolerance-sized bins
-- 
2.43.0


From abe80526fab03775aceaaec0764727db2c0961f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:49:18 +0000
Subject: [PATCH 27/36] fix: intersect live faces only and allow border edges

Removed faces were intersected as if they were still there, and a point on a
border edge panicked because only one side has a face.
---
 src/mesh_processing/boolean.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index acba06f..1ec0827 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -341,6 +341,9 @@ where
         let mut ends_vec = Vec::with_capacity(64);
 
         for fa in 0..self.faces.len() {
+            if self.faces[fa].removed {
+                continue;
+            }
             candidates.clear();
             tree_b.query(&self.face_aabb(fa), &mut candidates);
 
@@ -353,6 +356,9 @@ where
             let pre_a = TriPrecomp::new(&pa);
 
             for &fb in &candidates {
+                if other.faces[*fb].removed {
+                    continue;
+                }
                 ends_vec.clear();
 
                 let pb_idx = other.face_vertices(*fb);
@@ -408,11 +414,14 @@ where
                                         vertices_indices[mesh_x][e.1],
                                     )];
 
-                                    let f1 = meshes[mesh_x].half_edges[he].face.unwrap();
+                                    // border edges have a face on one side only
+                                    let f1 = meshes[mesh_x].half_edges[he]
+                                        .face
+                                        .unwrap_or(usize::MAX);
                                     let f2 = meshes[mesh_x].half_edges
                                         [meshes[mesh_x].half_edges[he].twin]
                                         .face
-                                        .unwrap();
+                                        .unwrap_or(usize::MAX);
 
                                     intersection_endpoints[end_x].faces_hint = Some([f1, f2]);
                                     intersection_endpoints[end_x].half_edge_hint = Some(he);
-- 
2.43.0


From 27c3fa80fe78c9eb3912fb88cffb3baf15dd5f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:00 +0000
Subject: [PATCH 28/36] fix: do not fold the surface when remeshing flips edges

Edges were flipped for better angles even across a sharp ridge, which turned
the new triangles around and could leave the surface inside out. Triangles with
an edge of no length panicked; such edges are left alone now.
---
 src/mesh_processing/remesh.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index f09f11b..f901c12 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -219,13 +219,17 @@ impl_mesh! {
         if v2 == v3 { return false; } // would collapse
 
         // Old triangles: (v0,v1,v2) and (v1,v0,v3)
-        let old1 = self.tri_min_angle_cos_f64(v0,v1,v2).unwrap();
-        let old2 = self.tri_min_angle_cos_f64(v1,v0,v3).unwrap();
+        let (Some(old1), Some(old2)) = (
+            self.tri_min_angle_cos_f64(v0,v1,v2),
+            self.tri_min_angle_cos_f64(v1,v0,v3),
+        ) else { return false };
         let old_min = old1.max(old2); // since each returns cos(minAngle of tri), worst small angle
 
         // New triangles after flip: (v0,v2,v3) and (v1,v3,v2)
-        let new1 = self.tri_min_angle_cos_f64(v0,v2,v3).unwrap();
-        let new2 = self.tri_min_angle_cos_f64(v1,v3,v2).unwrap();
+        let (Some(new1), Some(new2)) = (
+            self.tri_min_angle_cos_f64(v0,v2,v3),
+            self.tri_min_angle_cos_f64(v1,v3,v2),
+        ) else { return false };
         let new_min = new1.max(new2);
 
         // Require a strict improvement with a small epsilon
@@ -243,10 +247,22 @@ impl_mesh! {
             let z  = n.norm2();
             z > T::zero()
         };
-        area_safe(&pa,&pb,&pc) &&
-        area_safe(&pb,&pa,&pd) &&
-        area_safe(&pa,&pc,&pd) &&
-        area_safe(&pb,&pd,&pc)
+        if !(area_safe(&pa,&pb,&pc) &&
+            area_safe(&pb,&pa,&pd) &&
+            area_safe(&pa,&pc,&pd) &&
+            area_safe(&pb,&pd,&pc))
+        {
+            return false;
+        }
+
+        // Fold-over guard: the new triangles must face the same way as the old pair
+        let normal = |p0: &Point::<T, N>, p1: &Point::<T, N>, p2: &Point::<T, N>| {
+            (p1 - p0).as_vector().cross(&(p2 - p0).as_vector())
+        };
+        let (old1, old2) = (normal(&pa,&pb,&pc), normal(&pb,&pa,&pd));
+        [normal(&pa,&pd,&pc), normal(&pb,&pc,&pd)]
+            .iter()
+            .all(|n| n.dot(&old1) > T::zero() && n.dot(&old2) > T::zero())
     }
 
     /// Flip edges using quality-based predicate plus lightweight valence improvement.
-- 
2.43.0


From e7d9d44f0930fd89702b8cb03bea93366f1fcd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:58 +0000
Subject: [PATCH 29/36] fix: keep every cut segment when splitting boolean
 faces

Segments that start in a corner of the face were dropped unless they run along
its boundary, and an end point that is a corner was replaced by the other end
point. Solids that touch in a vertex, an edge or a common plane came out open.
---
 src/mesh_processing/batching.rs | 155 ++------------------------------
 1 file changed, 6 insertions(+), 149 deletions(-)

diff --git a/src/mesh_processing/batching.rs b/src/mesh_processing/batching.rs
index f0d6011..1e32a25 100644
--- a/src/mesh_processing/batching.rs
+++ b/src/mesh_processing/batching.rs
@@ -386,30 +386,6 @@ where
 
     let mut jobs: Vec<FaceJobUV<T>> = Vec::with_capacity(by_face.len());
 
-    // --- helpers (UV) --------------------------------------------------------
-
-    // build the ordered chain of local indices that lie on segment (i,j) (including i and j)
-    fn chain_on_edge<TS: Scalar>(i: usize, j: usize, pts: &[Point2<TS>]) -> Vec<usize>
-    where
-        for<'x> &'x TS: std::ops::Sub<&'x TS, Output = TS>
-            + std::ops::Mul<&'x TS, Output = TS>
-            + std::ops::Add<&'x TS, Output = TS>,
-    {
-        let a = &pts[i];
-        let b = &pts[j];
-        let mut out: Vec<(f64, usize)> = Vec::new();
-        for (k, p) in pts.iter().enumerate() {
-            let (on, t) = on_edge_with_t(a, b, p);
-            if on {
-                out.push((t, k));
-            }
-        }
-        out.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
-        out.into_iter().map(|(_, k)| k).collect()
-    }
-
-    // ------------------------------------------------------------------------
-
     for (face_id, vertex_pairs) in by_face {
         if mesh.faces[face_id].removed {
             continue;
@@ -444,40 +420,10 @@ where
             );
         }
 
-        // Resolve each endpoint to the vertex that belongs to THIS face.
-        // We also keep the resolved pairs to emit segments later.
-        let mut resolved_pairs: Vec<(usize, usize)> = Vec::with_capacity(vertex_pairs.len());
+        // Add the end points; the pairs are kept to emit segments later.
         for &[va, vb] in &vertex_pairs {
-            let mut a_res = usize::MAX;
-            let mut b_res = usize::MAX;
-            // project both candidates in the SAME basis you use for points_uv
-            if va != usize::MAX {
-                let (u, v, _) =
-                    barycentric_coords(&mesh.vertices[va].position, pa, pb, pc).unwrap();
-                let pa_uv = Point2::new([u, v]);
-                a_res = choose_vertex_on_face(mesh, face_id, &[va, vb], &pa_uv, pa, pb, pc)
-                    .unwrap_or(va);
-                if !boundary_verts.contains(&a_res) {
-                    push_vertex_uv_3(
-                        mesh,
-                        &mut g2l,
-                        &mut verts_global,
-                        &mut points_uv,
-                        pa,
-                        pb,
-                        pc,
-                        a_res,
-                    );
-                }
-            }
-
-            if vb != usize::MAX {
-                let (u, v, _) =
-                    barycentric_coords(&mesh.vertices[vb].position, pa, pb, pc).unwrap();
-                let pb_uv = Point2::new([u, v]);
-                b_res = choose_vertex_on_face(mesh, face_id, &[vb, va], &pb_uv, pa, pb, pc)
-                    .unwrap_or(vb);
-                if !boundary_verts.contains(&b_res) {
+            for v in [va, vb] {
+                if v != usize::MAX {
                     push_vertex_uv_3(
                         mesh,
                         &mut g2l,
@@ -486,38 +432,22 @@ where
                         pa,
                         pb,
                         pc,
-                        b_res,
+                        v,
                     );
                 }
             }
-
-            resolved_pairs.push((a_res, b_res));
         }
 
         // constraints (PSLG)
         let mut segments: Vec<[usize; 2]> = Vec::new();
-        let mut forced: FastSet<(usize, usize)> = FastSet::default();
 
         // 1) boundary split at on-edge vertices
         add_split_or_chain_uv(0, 1, &mut segments, &points_uv);
         add_split_or_chain_uv(1, 2, &mut segments, &points_uv);
         add_split_or_chain_uv(2, 0, &mut segments, &points_uv);
 
-        // Mark **all** edges along those three chains as forced
-        let mark_chain_as_forced = |i0: usize, i1: usize, forced: &mut FastSet<(usize, usize)>| {
-            let chain = chain_on_edge(i0, i1, &points_uv);
-            for w in chain.windows(2) {
-                let (a, b) = (w[0], w[1]);
-                let key = if a < b { (a, b) } else { (b, a) };
-                forced.insert(key);
-            }
-        };
-        mark_chain_as_forced(0, 1, &mut forced);
-        mark_chain_as_forced(1, 2, &mut forced);
-        mark_chain_as_forced(2, 0, &mut forced);
-
         // ---- existing intersection segments ----
-        for &(va, vb) in &resolved_pairs {
+        for &[va, vb] in &vertex_pairs {
             if va != usize::MAX && vb != usize::MAX {
                 if let (Some(&la), Some(&lb)) = (g2l.get(&va), g2l.get(&vb)) {
                     if la != lb {
@@ -527,7 +457,7 @@ where
             }
         }
 
-        // ---- pruning & dedup: keep forced edges ----
+        // ---- dedup ----
         {
             // dedupe undirected
             let mut seen: FastSet<(usize, usize)> = FastSet::default();
@@ -544,35 +474,6 @@ where
             segments = uniq;
         }
 
-        // relaxed pruning: DO NOT drop fan spokes in `forced`
-        segments.retain(|[a, b]| {
-            if a == b {
-                return false;
-            }
-            let key = if *a < *b { (*a, *b) } else { (*b, *a) };
-
-            // 1) keep anything we declared forced
-            if forced.contains(&key) {
-                return true;
-            }
-
-            let a_is_boundary = *a < 3;
-            let b_is_boundary = *b < 3;
-
-            // 2) boundary–boundary: keep only true outer-edge chords
-            if a_is_boundary && b_is_boundary {
-                return seg_on_any_outer_edge(*a, *b, &points_uv);
-            }
-
-            // 3) boundary–interior: allow only if the segment lies on an outer edge
-            if a_is_boundary ^ b_is_boundary {
-                return seg_on_any_outer_edge(*a, *b, &points_uv);
-            }
-
-            // 4) interior–interior: always ok (intersection chords etc.)
-            true
-        });
-
         jobs.push(FaceJobUV {
             face_id,
             verts_global,
@@ -735,47 +636,3 @@ pub fn on_edge_with_t<TS: Scalar>(a: &Point2<TS>, b: &Point2<TS>, p: &Point2<TS>
     let t = dot / len2;
     (t >= -EPS && t <= 1.0 + EPS, t)
 }
-
-/// Return the global vertex from `candidates` that is *incident to this face*,
-/// else fall back to the nearest-on-this-face edge.
-fn choose_vertex_on_face<T: Scalar, const N: usize>(
-    mesh: &Mesh<T, N>,
-    face_id: usize,
-    candidates: &[usize],
-    projected_uv: &Point2<T>, // must be barycentric_uv in the SAME (a,b,c) basis
-    pa: &Point<T, N>,
-    pb: &Point<T, N>,
-    pc: &Point<T, N>,
-) -> Option<usize>
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // 1) prefer a candidate that touches this face
-    for &g in candidates {
-        if g < mesh.vertices.len() && mesh.vertex_touches_face(g, face_id) {
-            return Some(g);
-        }
-    }
-    // 2) otherwise: minimal barycentric-UV distance
-    let mut best: Option<(usize, T)> = None;
-    for &g in candidates {
-        if g >= mesh.vertices.len() {
-            continue;
-        }
-        let p = &mesh.vertices[g].position;
-        let (u, v, _) = barycentric_coords(p, pa, pb, pc).unwrap();
-        let du = &u - &projected_uv[0];
-        let dv = &v - &projected_uv[1];
-        let d2 = &du * &du + &dv * &dv;
-        if best.as_ref().map_or(true, |(_, bd2)| d2 < *bd2) {
-            best = Some((g, d2));
-        }
-    }
-    best.map(|(g, _)| g)
-}
-- 
2.43.0


From 7dd74925b558c814c0fd0d9a6ba9faa2c2505add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:58 +0000
Subject: [PATCH 30/36] fix: classify boolean faces that lie on the other
 surface exactly

The centroid was rounded to doubles, so faces lying on the other surface were
taken for inside or outside, and a parallel face elsewhere could decide which
way the surface faces there.
---
 src/mesh_processing/boolean.rs | 54 ++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 1ec0827..e69eb38 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -174,56 +174,72 @@ where
                 next += 1;
             }
 
-            // A face may touch `other` with its centroid only; the region lies on the surface if all do
-            let mut region_side = None;
+            // A face may touch `other` with its centroid only, then the next one decides
+            let mut region_side = FaceSide::Outside;
             for &f in &region {
-                match other.point_in_mesh_3(&tree_b, &self.face_centroid_fast(f)) {
-                    PointInMeshResult::Inside => region_side = Some(FaceSide::Inside),
-                    PointInMeshResult::Outside => region_side = Some(FaceSide::Outside),
+                let centroid = self.face_centroid(f).0;
+                if let Some(on) = self.side_on_surface(f, &centroid, other, &tree_b) {
+                    region_side = on;
+                    break;
+                }
+                match other.point_in_mesh_3(&tree_b, &centroid) {
+                    PointInMeshResult::Inside => region_side = FaceSide::Inside,
+                    PointInMeshResult::Outside => region_side = FaceSide::Outside,
                     PointInMeshResult::OnSurface => continue,
                 }
                 break;
             }
             for f in region {
-                side[f] = match region_side {
-                    Some(region_side) => region_side,
-                    None => self.side_on_surface(f, other, &tree_b),
-                };
+                side[f] = region_side;
             }
         }
 
         side
     }
 
-    /// Whether a face lying on the surface of `other` faces the same way as the surface does there
+    /// If the face lies on a face of `other` at its centroid, whether both face the same way
     fn side_on_surface(
         &self,
         f: usize,
+        centroid: &Point<T, N>,
         other: &Mesh<T, N>,
         tree: &AabbTree<T, N, Point<T, N>, usize>,
-    ) -> FaceSide {
-        let n = self.face_normal(f);
-        let c = self.face_centroid_fast(f);
+    ) -> Option<FaceSide> {
+        let tol = T::tolerance();
+        let lo = Point::<T, N>::from_vals(from_fn(|i| &centroid[i] - &tol));
+        let hi = Point::<T, N>::from_vals(from_fn(|i| &centroid[i] + &tol));
         let mut candidates = Vec::new();
-        tree.query(&Aabb::from_points(&c, &c), &mut candidates);
+        tree.query(&Aabb::from_points(&lo, &hi), &mut candidates);
 
+        let n = self.face_normal(f);
+        let nn = n.dot(&n);
         for &g in &candidates {
             if other.faces[*g].removed {
                 continue;
             }
             let m = other.face_normal(*g);
+            let mm = m.dot(&m);
+            if nn.is_zero() || mm.is_zero() {
+                continue;
+            }
+
             let d = n.dot(&m);
-            let parallel = (&(&d * &d) - &(&n.dot(&n) * &m.dot(&m))).is_zero();
-            if parallel && other.barycentric_coords_on_face(*g, &c).is_some() {
-                return if d.is_positive() {
+            let cos2 = &(&d * &d) / &(&nn * &mm);
+            let v = &other.vertices[other.face_vertices(*g)[0]].position;
+            let h = m.dot(&(centroid - v).as_vector_3());
+            if (&T::one() - &cos2).is_zero()
+                && (&(&h * &h) / &mm).is_zero()
+                && other.barycentric_coords_on_face(*g, centroid).is_some()
+            {
+                return Some(if d.is_positive() {
                     FaceSide::OnSame
                 } else {
                     FaceSide::OnOpposite
-                };
+                });
             }
         }
 
-        FaceSide::OnSame
+        None
     }
 
     fn classify_faces_2(
-- 
2.43.0


From 1297ba79f2afd722f1af651afeff7eafa3a463b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:58 +0000
Subject: [PATCH 31/36] fix: booleans with an empty operand

Building the search tree of a mesh without faces panics, so the empty result of
one boolean could not be used in the next.
---
 src/mesh_processing/boolean.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e69eb38..cc0c86f 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -146,8 +146,12 @@ where
             }
         }
 
-        let tree_b = other.build_face_tree();
         let mut side = vec![FaceSide::Outside; self.faces.len()];
+        if other.faces.is_empty() {
+            return side;
+        }
+
+        let tree_b = other.build_face_tree();
         let mut visited = vec![false; self.faces.len()];
 
         for seed in 0..self.faces.len() {
@@ -345,11 +349,15 @@ where
         Vec<IntersectionSegment<T, N>>,
         Vec<IntersectionSegment<T, N>>,
     ) {
+        let mut intersection_segments_a = Vec::new();
+        let mut intersection_segments_b = Vec::new();
+        if other.faces.is_empty() {
+            return (intersection_segments_a, intersection_segments_b);
+        }
+
         let start = Instant::now();
         let tree_b = other.build_face_tree();
         println!("Total AABB computation: {:.2?}", start.elapsed());
-        let mut intersection_segments_a = Vec::new();
-        let mut intersection_segments_b = Vec::new();
         let intersection_segments = [&mut intersection_segments_a, &mut intersection_segments_b];
         let meshes = [&self, &other];
 
-- 
2.43.0


From c21160c58d02b8836a65b985a7503b544628d710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:45:16 +0000
Subject: [PATCH 32/36] fix: booleans of planar meshes

Cut the faces of both meshes along each other's edges instead of only at
points on their edges, and keep overlapping parts once.  Union returned
nothing or panicked before, and the other operations returned overlapping
or inverted triangles.
---
 src/mesh_processing/batching.rs | 232 -----------------
 src/mesh_processing/boolean.rs  | 446 ++++++--------------------------
 2 files changed, 75 insertions(+), 603 deletions(-)

diff --git a/src/mesh_processing/batching.rs b/src/mesh_processing/batching.rs
index 1e32a25..b8f64d0 100644
--- a/src/mesh_processing/batching.rs
+++ b/src/mesh_processing/batching.rs
@@ -89,25 +89,6 @@ where
     (u, v)
 }
 
-#[inline]
-fn push_vertex_uv_2<T: Scalar, const N: usize>(
-    mesh: &Mesh<T, N>,
-    g2l: &mut AHashMap<usize, usize>,
-    verts_global: &mut Vec<usize>,
-    points_uv: &mut Vec<Point2<T>>,
-    vid: usize,
-) -> usize {
-    if let Some(&li) = g2l.get(&vid) {
-        return li;
-    }
-    let p = &mesh.vertices[vid].position;
-    let li = points_uv.len();
-    points_uv.push(Point2::new([p[0].clone(), p[1].clone()]));
-    verts_global.push(vid);
-    g2l.insert(vid, li);
-    li
-}
-
 #[inline]
 fn push_vertex_uv_3<T: Scalar, const N: usize>(
     mesh: &Mesh<T, N>,
@@ -139,198 +120,6 @@ where
     li
 }
 
-pub fn build_face_pslgs_2<T: Scalar + Clone + PartialOrd, const N: usize>(
-    mesh: &Mesh<T, N>,
-    intersection_segments: &[IntersectionSegment<T, N>],
-) -> Vec<FaceJobUV<T>>
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    use ahash::{AHashMap, AHashSet as FastSet};
-
-    let mut by_face: AHashMap<usize, Vec<[usize; 2]>> = AHashMap::default();
-    for seg in intersection_segments {
-        if seg.invalidated {
-            continue;
-        }
-        let a = seg.a.resulting_vertex.unwrap();
-        let b = seg.b.resulting_vertex.unwrap();
-
-        // Skip if both endpoints are invalid
-        if a == usize::MAX && b == usize::MAX {
-            continue;
-        }
-
-        // Add segment or single vertex to initial face
-        by_face
-            .entry(seg.initial_face_reference)
-            .or_default()
-            .push([a, b]);
-
-        // Propagate vertices to adjacent faces via faces_hint
-        for (ep_idx, &vertex_id) in [a, b].iter().enumerate() {
-            if vertex_id == usize::MAX {
-                continue;
-            }
-            let ep = if ep_idx == 0 { &seg.a } else { &seg.b };
-            if let Some(faces) = ep.faces_hint {
-                for &face_id in &faces {
-                    if face_id != usize::MAX && face_id != seg.initial_face_reference {
-                        by_face
-                            .entry(face_id)
-                            .or_default()
-                            .push([vertex_id, usize::MAX]);
-                    }
-                }
-            }
-        }
-    }
-
-    let mut jobs: Vec<FaceJobUV<T>> = Vec::with_capacity(by_face.len());
-
-    for (face_id, vertex_pairs) in by_face {
-        if mesh.faces[face_id].removed {
-            continue;
-        }
-
-        let fv = mesh.face_vertices(face_id);
-        let [ia, ib, ic] = [fv[0], fv[1], fv[2]];
-
-        let mut g2l: AHashMap<usize, usize> = AHashMap::default();
-        let mut verts_global: Vec<usize> = Vec::new();
-        let mut points_uv: Vec<Point2<T>> = Vec::new();
-
-        let boundary_verts = [ia, ib, ic];
-        for &bv in &boundary_verts {
-            push_vertex_uv_2(mesh, &mut g2l, &mut verts_global, &mut points_uv, bv);
-        }
-
-        let mut resolved_pairs: Vec<(usize, usize)> = Vec::with_capacity(vertex_pairs.len());
-        for &[va, vb] in &vertex_pairs {
-            let a_res = if va != usize::MAX && !boundary_verts.contains(&va) {
-                push_vertex_uv_2(mesh, &mut g2l, &mut verts_global, &mut points_uv, va);
-                va
-            } else {
-                va
-            };
-
-            let b_res = if vb != usize::MAX && !boundary_verts.contains(&vb) {
-                push_vertex_uv_2(mesh, &mut g2l, &mut verts_global, &mut points_uv, vb);
-                vb
-            } else {
-                vb
-            };
-
-            // Only add to resolved_pairs if it's a real segment (both valid and different)
-            if a_res != usize::MAX && b_res != usize::MAX && a_res != b_res {
-                resolved_pairs.push((a_res, b_res));
-            }
-        }
-
-        let mut segments: Vec<[usize; 2]> = Vec::new();
-        let mut forced: FastSet<(usize, usize)> = FastSet::default();
-
-        add_split_or_chain_uv(0, 1, &mut segments, &points_uv);
-        add_split_or_chain_uv(1, 2, &mut segments, &points_uv);
-        add_split_or_chain_uv(2, 0, &mut segments, &points_uv);
-
-        let mark_chain_as_forced =
-            |i0: usize, i1: usize, forced: &mut FastSet<(usize, usize)>, pts: &[Point2<T>]| {
-                let chain = chain_on_edge(i0, i1, pts);
-                for w in chain.windows(2) {
-                    let key = if w[0] < w[1] {
-                        (w[0], w[1])
-                    } else {
-                        (w[1], w[0])
-                    };
-                    forced.insert(key);
-                }
-            };
-        mark_chain_as_forced(0, 1, &mut forced, &points_uv);
-        mark_chain_as_forced(1, 2, &mut forced, &points_uv);
-        mark_chain_as_forced(2, 0, &mut forced, &points_uv);
-
-        for &(va, vb) in &resolved_pairs {
-            if va != usize::MAX && vb != usize::MAX {
-                if let (Some(&la), Some(&lb)) = (g2l.get(&va), g2l.get(&vb)) {
-                    if la != lb {
-                        add_split_or_chain_uv(la, lb, &mut segments, &points_uv);
-                    }
-                }
-            }
-        }
-
-        {
-            let mut seen: FastSet<(usize, usize)> = FastSet::default();
-            let mut uniq: Vec<[usize; 2]> = Vec::with_capacity(segments.len());
-            for [a, b] in segments.drain(..) {
-                if a == b {
-                    continue;
-                }
-                let key = if a < b { (a, b) } else { (b, a) };
-                if seen.insert(key) {
-                    uniq.push([a, b]);
-                }
-            }
-            segments = uniq;
-        }
-
-        segments.retain(|[a, b]| {
-            if a == b {
-                return false;
-            }
-            let key = if *a < *b { (*a, *b) } else { (*b, *a) };
-            if forced.contains(&key) {
-                return true;
-            }
-            let a_is_boundary = *a < 3;
-            let b_is_boundary = *b < 3;
-            if a_is_boundary && b_is_boundary {
-                return seg_on_any_outer_edge(*a, *b, &points_uv);
-            }
-            if a_is_boundary ^ b_is_boundary {
-                return seg_on_any_outer_edge(*a, *b, &points_uv);
-            }
-            true
-        });
-
-        jobs.push(FaceJobUV {
-            face_id,
-            verts_global,
-            points_uv,
-            segments,
-        });
-    }
-
-    println!("{:?}", jobs);
-    jobs
-}
-
-fn chain_on_edge<TS: Scalar>(i: usize, j: usize, pts: &[Point2<TS>]) -> Vec<usize>
-where
-    for<'x> &'x TS: std::ops::Sub<&'x TS, Output = TS>
-        + std::ops::Mul<&'x TS, Output = TS>
-        + std::ops::Add<&'x TS, Output = TS>,
-{
-    let a = &pts[i];
-    let b = &pts[j];
-    let mut out: Vec<(f64, usize)> = Vec::new();
-    for (k, p) in pts.iter().enumerate() {
-        let (on, t) = on_edge_with_t(a, b, p);
-        if on {
-            out.push((t, k));
-        }
-    }
-    out.sort_by(|x, y| x.0.partial_cmp(&y.0).unwrap());
-    out.into_iter().map(|(_, k)| k).collect()
-}
-
 /// 2) Build a PSLG per face: boundary chains + interior points + intersection segments.
 ///    Requires that `allocate_vertices_for_splits_no_topology` has already run,
 ///    so every relevant endpoint has a `vertex_hint`.
@@ -586,27 +375,6 @@ fn add_split_or_chain_uv<T: Scalar + PartialOrd>(
     }
 }
 
-fn seg_on_any_outer_edge<T: Scalar>(a: usize, b: usize, pts: &[Point2<T>]) -> bool
-where
-    for<'x> &'x T: std::ops::Sub<&'x T, Output = T>
-        + std::ops::Mul<&'x T, Output = T>
-        + std::ops::Add<&'x T, Output = T>,
-{
-    // reuse your robust on_edge_with_t from build_face_pslgs
-    let pairs = [(0, 1), (1, 2), (2, 0)];
-    for &(i0, i1) in &pairs {
-        let (ok_a, _) = on_edge_with_t(&pts[i0], &pts[i1], &pts[a]);
-        if !ok_a {
-            continue;
-        }
-        let (ok_b, _) = on_edge_with_t(&pts[i0], &pts[i1], &pts[b]);
-        if ok_b {
-            return true;
-        }
-    }
-    false
-}
-
 // return true if p lies on segment ab in UV; also return the parameter t in [0,1] if wanted
 #[inline(always)]
 pub fn on_edge_with_t<TS: Scalar>(a: &Point2<TS>, b: &Point2<TS>, p: &Point2<TS>) -> (bool, f64) {
diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index cc0c86f..66cc06b 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -22,7 +22,6 @@
 
 use std::{
     array::from_fn,
-    collections::VecDeque,
     hash::Hash,
     ops::{Add, Div, Mul, Neg, Sub},
     time::Instant,
@@ -38,7 +37,7 @@ use crate::{
         segment::{Segment, SegmentOps},
         spatial_element::SpatialElement,
         tri_tri_intersect::{
-            ContactOnTri, TriPrecomp, TriTriIntersectionDetailed, segment_intersect_2d,
+            ContactOnTri, TriPrecomp, TriTriIntersectionDetailed,
             tri_tri_intersection_with_precomp_detailed,
         },
         vector::{Cross2, Cross3, Vector, VectorOps},
@@ -46,8 +45,9 @@ use crate::{
     mesh::{
         basic_types::{Mesh, PointInMeshResult, VertexSource},
         intersection_segment::{IntersectionEndPoint, IntersectionSegment},
+        vertex::Vertex,
     },
-    mesh_processing::batching::{FaceJobUV, build_face_pslgs_2, build_face_pslgs_3},
+    mesh_processing::batching::{FaceJobUV, build_face_pslgs_3},
     numeric::{
         cgar_f64::CgarF64,
         // lazy_exact::ENABLE_PANIC_ON_EXACT,
@@ -112,15 +112,6 @@ enum FaceSide {
     OnOpposite,
 }
 
-impl FaceSide {
-    fn from_inside(inside: &[bool]) -> Vec<Self> {
-        inside
-            .iter()
-            .map(|&i| if i { Self::Inside } else { Self::Outside })
-            .collect()
-    }
-}
-
 impl<T: Scalar, const N: usize> Mesh<T, N>
 where
     Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
@@ -246,100 +237,20 @@ where
         None
     }
 
-    fn classify_faces_2(
-        &self,
-        other: &Mesh<T, N>,
-        intersection_segments: &Vec<IntersectionSegment<T, N>>,
-    ) -> Vec<bool> {
-        let mut inside = vec![false; self.faces.len()];
-
-        if intersection_segments.is_empty() {
-            for (face_idx, face) in self.faces.iter().enumerate() {
-                if face.removed {
-                    continue;
-                }
-                let centroid = self.face_centroid_fast(face_idx);
-                inside[face_idx] = other.point_in_mesh_2(&centroid.as_point_2());
-            }
-            return inside;
-        }
-
-        let mut boundary_faces = AHashSet::new();
-        for seg in intersection_segments {
-            let v0 = seg.a.resulting_vertex.unwrap();
-            let v1 = seg.b.resulting_vertex.unwrap();
-
-            if let Some(&he) = self.edge_map.get(&(v0, v1)) {
-                if let Some(f0) = self.half_edges[he].face {
-                    boundary_faces.insert(f0);
-                }
-                if let Some(f1) = self.half_edges[self.half_edges[he].twin].face {
-                    boundary_faces.insert(f1);
-                }
-            }
-        }
-
-        // Find seed face
-        let seed_result =
-            Self::get_seed_face_2(self, other, intersection_segments, &boundary_faces);
-
-        if seed_result.is_none() {
-            for (face_idx, face) in self.faces.iter().enumerate() {
-                if face.removed {
-                    continue;
-                }
-                let centroid = self.face_centroid_fast(face_idx);
-                inside[face_idx] = other.point_in_mesh_2(&centroid.as_point_2());
-            }
-            return inside;
-        }
-
-        let (_seed_intersection_idx, seed_face) = seed_result.unwrap();
-
-        // Build face connectivity avoiding intersection boundaries
-        let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
-        for seg in intersection_segments {
-            let v0 = seg.a.resulting_vertex.unwrap();
-            let v1 = seg.b.resulting_vertex.unwrap();
-
-            if let Some(&he) = self.edge_map.get(&(v0, v1)) {
-                if let (Some(f0), Some(f1)) = (
-                    self.half_edges[he].face,
-                    self.half_edges[self.half_edges[he].twin].face,
-                ) {
-                    face_pairs.entry(f0).or_default().push(f1);
-                    face_pairs.entry(f1).or_default().push(f0);
-                }
-            }
-        }
-
-        // Flood fill
-        let mut visited = vec![false; self.faces.len()];
-        let mut queue = VecDeque::new();
-
-        visited[seed_face] = true;
-        inside[seed_face] = true;
-        queue.push_back(seed_face);
-
-        while let Some(curr) = queue.pop_front() {
-            for nbr in self.adjacent_faces(curr) {
-                if visited[nbr] {
-                    continue;
-                }
-
-                if let Some(pairs) = face_pairs.get(&curr) {
-                    if pairs.contains(&nbr) {
-                        continue;
-                    }
+    /// Side of `other` on which each face lies. No face crosses the outline of `other` any more, so its
+    /// centroid decides.
+    fn classify_faces_2(&self, other: &Mesh<T, N>) -> Vec<FaceSide> {
+        (0..self.faces.len())
+            .map(|f| {
+                if !self.faces[f].removed
+                    && other.point_in_mesh_2(&self.face_centroid(f).0.as_point_2())
+                {
+                    FaceSide::Inside
+                } else {
+                    FaceSide::Outside
                 }
-
-                visited[nbr] = true;
-                inside[nbr] = true;
-                queue.push_back(nbr);
-            }
-        }
-
-        inside
+            })
+            .collect()
     }
 
     pub fn get_mesh_intersections_3(
@@ -474,6 +385,7 @@ where
         (intersection_segments_a, intersection_segments_b)
     }
 
+    /// The outlines of all faces of one mesh inside the faces of the other
     pub fn get_mesh_intersections_2(
         &self,
         other: &Mesh<T, N>,
@@ -481,229 +393,57 @@ where
         Vec<IntersectionSegment<T, N>>,
         Vec<IntersectionSegment<T, N>>,
     ) {
-        let tree_b = other.build_face_tree();
-        let mut intersection_segments_a = Vec::new();
-        let mut intersection_segments_b = Vec::new();
-
-        let mut candidates = Vec::with_capacity(64);
-
-        // Track coplanar segment endpoints per half-edge to filter redundant point intersections
-        let mut coplanar_endpoints_a = AHashSet::<(usize, i64)>::new();
-        let mut coplanar_endpoints_b = AHashSet::<(usize, i64)>::new();
-
-        let tol = T::point_merge_threshold();
-        let tol_f64 = RefInto::<CgarF64>::ref_into(&tol).0.max(1e-12);
-        let one = T::one();
-
-        for fa in 0..self.faces.len() {
-            candidates.clear();
-            tree_b.query(&self.face_aabb(fa), &mut candidates);
-
-            if candidates.is_empty() {
-                continue;
-            }
-
-            let ea_idx = self.face_vertices(fa);
-            let na = ea_idx.len();
-
-            for &fb in &candidates {
-                let eb_idx = other.face_vertices(*fb);
-                let nb = eb_idx.len();
-
-                for i in 0..na {
-                    let va0 = ea_idx[i];
-                    let va1 = ea_idx[(i + 1) % na];
-                    let edge_a = ordered(va0, va1);
-
-                    let pa0 = &self.vertices[va0].position;
-                    let pa1 = &self.vertices[va1].position;
-
-                    let p2_a0 = Point::<T, 2>::from_vals(from_fn(|k| pa0[k].clone()));
-                    let p2_a1 = Point::<T, 2>::from_vals(from_fn(|k| pa1[k].clone()));
-
-                    for j in 0..nb {
-                        let vb0 = eb_idx[j];
-                        let vb1 = eb_idx[(j + 1) % nb];
-                        let edge_b = ordered(vb0, vb1);
-
-                        let pb0 = &other.vertices[vb0].position;
-                        let pb1 = &other.vertices[vb1].position;
-
-                        let p2_b0 = Point::<T, 2>::from_vals(from_fn(|k| pb0[k].clone()));
-                        let p2_b1 = Point::<T, 2>::from_vals(from_fn(|k| pb1[k].clone()));
+        let lower = |segments: Vec<IntersectionSegment<T, 3>>| {
+            let point = |p: &Point<T, 3>| Point::<T, N>::from_vals(from_fn(|i| p[i].clone()));
+            let end = |e: IntersectionEndPoint<T, 3>| IntersectionEndPoint::<T, N> {
+                vertex_hint: e.vertex_hint,
+                half_edge_hint: e.half_edge_hint,
+                half_edge_u_hint: e.half_edge_u_hint,
+                faces_hint: e.faces_hint,
+                barycentric_hint: e.barycentric_hint,
+                resulting_vertex: e.resulting_vertex,
+            };
+            segments
+                .into_iter()
+                .map(|s| {
+                    IntersectionSegment::new(
+                        end(s.a),
+                        end(s.b),
+                        &Segment::new(&point(&s.segment.a), &point(&s.segment.b)),
+                        s.initial_face_reference,
+                        s.coplanar,
+                    )
+                })
+                .collect()
+        };
 
-                        if let Some(seg_2d) = segment_intersect_2d(&p2_a0, &p2_a1, &p2_b0, &p2_b1) {
-                            let p_start = Point::<T, N>::from_vals(from_fn(|k| {
-                                if k < 2 {
-                                    seg_2d.a[k].clone()
-                                } else {
-                                    T::zero()
-                                }
-                            }));
-                            let p_end = Point::<T, N>::from_vals(from_fn(|k| {
-                                if k < 2 {
-                                    seg_2d.b[k].clone()
-                                } else {
-                                    T::zero()
-                                }
-                            }));
-
-                            let is_point = p_start == p_end;
-                            let coplanar = !is_point;
-
-                            let edge_a_geom = Segment::new(pa0, pa1);
-                            let edge_b_geom = Segment::new(pb0, pb1);
-
-                            let u_a_start = edge_a_geom.parameter_of_point(&p_start);
-                            let u_a_end = edge_a_geom.parameter_of_point(&p_end);
-                            let u_b_start = edge_b_geom.parameter_of_point(&p_start);
-                            let u_b_end = edge_b_geom.parameter_of_point(&p_end);
-
-                            let is_endpoint_a_start =
-                                &u_a_start <= &tol || &u_a_start >= &(&one - &tol);
-                            let is_endpoint_a_end = &u_a_end <= &tol || &u_a_end >= &(&one - &tol);
-                            let is_endpoint_b_start =
-                                &u_b_start <= &tol || &u_b_start >= &(&one - &tol);
-                            let is_endpoint_b_end = &u_b_end <= &tol || &u_b_end >= &(&one - &tol);
-
-                            // For mesh A
-                            let dominated_by_coplanar_a = if is_point {
-                                if let Some(&he) = self.edge_map.get(&(va0, va1)) {
-                                    let bucket = bucket_u(
-                                        RefInto::<CgarF64>::ref_into(&u_a_start).0,
-                                        tol_f64,
-                                    );
-                                    coplanar_endpoints_a.contains(&(he, bucket))
-                                } else {
-                                    false
-                                }
-                            } else {
-                                false
-                            };
-
-                            if !dominated_by_coplanar_a {
-                                let a_start_interior = !is_endpoint_a_start;
-                                let a_end_interior = !is_endpoint_a_end;
-
-                                if a_start_interior || a_end_interior || coplanar {
-                                    if !(is_point && is_endpoint_a_start) {
-                                        let mut ep0 = IntersectionEndPoint::<T, N>::new_default();
-                                        let mut ep1 = IntersectionEndPoint::<T, N>::new_default();
-
-                                        ep0.vertex_hint = Some([va0, va1]);
-                                        ep1.vertex_hint = Some([va0, va1]);
-
-                                        if let Some(&he) = self.edge_map.get(&(va0, va1)) {
-                                            ep0.half_edge_hint = Some(he);
-                                            ep1.half_edge_hint = Some(he);
-
-                                            let f0 = self.half_edges[he].face.unwrap_or(usize::MAX);
-                                            let twin = self.half_edges[he].twin;
-                                            let f1 =
-                                                self.half_edges[twin].face.unwrap_or(usize::MAX);
-                                            ep0.faces_hint = Some([f0, f1]);
-                                            ep1.faces_hint = Some([f0, f1]);
-
-                                            if coplanar {
-                                                let bucket_start = bucket_u(
-                                                    RefInto::<CgarF64>::ref_into(&u_a_start).0,
-                                                    tol_f64,
-                                                );
-                                                let bucket_end = bucket_u(
-                                                    RefInto::<CgarF64>::ref_into(&u_a_end).0,
-                                                    tol_f64,
-                                                );
-                                                coplanar_endpoints_a.insert((he, bucket_start));
-                                                coplanar_endpoints_a.insert((he, bucket_end));
-                                            }
-                                        }
-
-                                        ep0.half_edge_u_hint = Some(u_a_start.clone());
-                                        ep1.half_edge_u_hint = Some(u_a_end.clone());
-
-                                        intersection_segments_a.push(IntersectionSegment::new(
-                                            ep0,
-                                            ep1,
-                                            &Segment::new(&p_start, &p_end),
-                                            fa,
-                                            coplanar,
-                                        ));
-                                    }
-                                }
-                            }
+        let (a, b) = self.lifted().get_mesh_intersections_3(&other.lifted());
+        (lower(a), lower(b))
+    }
 
-                            // For mesh B
-                            let dominated_by_coplanar_b = if is_point {
-                                if let Some(&he) = other.edge_map.get(&(vb0, vb1)) {
-                                    let bucket = bucket_u(
-                                        RefInto::<CgarF64>::ref_into(&u_b_start).0,
-                                        tol_f64,
-                                    );
-                                    coplanar_endpoints_b.contains(&(he, bucket))
-                                } else {
-                                    false
-                                }
-                            } else {
-                                false
-                            };
-
-                            if !dominated_by_coplanar_b {
-                                let b_start_interior = !is_endpoint_b_start;
-                                let b_end_interior = !is_endpoint_b_end;
-
-                                if b_start_interior || b_end_interior || coplanar {
-                                    if !(is_point && is_endpoint_b_start) {
-                                        let mut ep0 = IntersectionEndPoint::<T, N>::new_default();
-                                        let mut ep1 = IntersectionEndPoint::<T, N>::new_default();
-
-                                        ep0.vertex_hint = Some([vb0, vb1]);
-                                        ep1.vertex_hint = Some([vb0, vb1]);
-
-                                        if let Some(&he) = other.edge_map.get(&(vb0, vb1)) {
-                                            ep0.half_edge_hint = Some(he);
-                                            ep1.half_edge_hint = Some(he);
-
-                                            let f0 =
-                                                other.half_edges[he].face.unwrap_or(usize::MAX);
-                                            let twin = other.half_edges[he].twin;
-                                            let f1 =
-                                                other.half_edges[twin].face.unwrap_or(usize::MAX);
-                                            ep0.faces_hint = Some([f0, f1]);
-                                            ep1.faces_hint = Some([f0, f1]);
-
-                                            if coplanar {
-                                                let bucket_start = bucket_u(
-                                                    RefInto::<CgarF64>::ref_into(&u_b_start).0,
-                                                    tol_f64,
-                                                );
-                                                let bucket_end = bucket_u(
-                                                    RefInto::<CgarF64>::ref_into(&u_b_end).0,
-                                                    tol_f64,
-                                                );
-                                                coplanar_endpoints_b.insert((he, bucket_start));
-                                                coplanar_endpoints_b.insert((he, bucket_end));
-                                            }
-                                        }
-
-                                        ep0.half_edge_u_hint = Some(u_b_start.clone());
-                                        ep1.half_edge_u_hint = Some(u_b_end.clone());
-
-                                        intersection_segments_b.push(IntersectionSegment::new(
-                                            ep0,
-                                            ep1,
-                                            &Segment::new(&p_start, &p_end),
-                                            *fb,
-                                            coplanar,
-                                        ));
-                                    }
-                                }
-                            }
-                        }
+    /// The same mesh in the plane z = 0
+    fn lifted(&self) -> Mesh<T, 3> {
+        let mut mesh = Mesh::<T, 3>::new();
+        mesh.vertices = self
+            .vertices
+            .iter()
+            .map(|v| {
+                let mut lifted = Vertex::new(Point::<T, 3>::from_vals(from_fn(|i| {
+                    if i < 2 {
+                        v.position[i].clone()
+                    } else {
+                        T::zero()
                     }
-                }
-            }
-        }
-        (intersection_segments_a, intersection_segments_b)
+                })));
+                lifted.half_edge = v.half_edge;
+                lifted.removed = v.removed;
+                lifted
+            })
+            .collect();
+        mesh.half_edges = self.half_edges.clone();
+        mesh.faces = self.faces.clone();
+        mesh.edge_map = self.edge_map.clone();
+        mesh
     }
 
     pub fn corefine_and_boolean(&mut self, other: &mut Mesh<T, N>, op: BooleanOp) -> Mesh<T, N>
@@ -741,11 +481,7 @@ where
 
         println!("Allocated vertices on A in {:.2?}", start.elapsed());
         let start = Instant::now();
-        let jobs_a = if N == 3 {
-            build_face_pslgs_3(a, &intersection_segments_a)
-        } else {
-            build_face_pslgs_2(a, &intersection_segments_a)
-        };
+        let jobs_a = build_face_pslgs_3(a, &intersection_segments_a);
         println!("Built faces PSLGS on A in {:.2?}", start.elapsed());
 
         // Build CDT per compacted job (example)
@@ -764,11 +500,7 @@ where
             allocate_vertices_for_splits_no_topology(&mut b, &mut intersection_segments_b);
         println!("Allocated vertices on B in {:.2?}", start.elapsed());
         let start = Instant::now();
-        let jobs_b = if N == 3 {
-            build_face_pslgs_3(b, &intersection_segments_b)
-        } else {
-            build_face_pslgs_2(b, &intersection_segments_b)
-        };
+        let jobs_b = build_face_pslgs_3(b, &intersection_segments_b);
         println!("Built faces PSLGS on B in {:.2?}", start.elapsed());
 
         // Build CDT per compacted job (example)
@@ -806,20 +538,19 @@ where
                 b.classify_faces_3(&a, &intersection_segments_b),
             )
         } else {
-            (
-                FaceSide::from_inside(&a.classify_faces_2(&b, &intersection_segments_a)),
-                FaceSide::from_inside(&b.classify_faces_2(&a, &intersection_segments_b)),
-            )
+            (a.classify_faces_2(&b), b.classify_faces_2(&a))
         };
         println!("Faces classified in {:.2?}", start.elapsed());
 
-        // Where the surfaces coincide, A's faces stand for both
+        // Where the surfaces coincide, or in the plane the regions overlap, A's faces stand for both
         for (fa, side) in sides_a.iter().enumerate() {
             if a.faces[fa].removed {
                 continue;
             }
             let keep = match op {
-                BooleanOp::Union => matches!(side, FaceSide::Outside | FaceSide::OnSame),
+                BooleanOp::Union => {
+                    N == 2 || matches!(side, FaceSide::Outside | FaceSide::OnSame)
+                }
                 BooleanOp::Intersection => matches!(side, FaceSide::Inside | FaceSide::OnSame),
                 BooleanOp::Difference => matches!(side, FaceSide::Outside | FaceSide::OnOpposite),
             };
@@ -835,7 +566,9 @@ where
             }
             let keep = match op {
                 BooleanOp::Union => matches!(side, FaceSide::Outside),
-                BooleanOp::Intersection | BooleanOp::Difference => matches!(side, FaceSide::Inside),
+                BooleanOp::Intersection | BooleanOp::Difference => {
+                    N == 3 && matches!(side, FaceSide::Inside)
+                }
             };
             if keep {
                 let vs = b.face_vertices(fb).map(|v| vid_map[&(VertexSource::B, v)]);
@@ -860,35 +593,6 @@ where
 
         result
     }
-
-    fn get_seed_face_2(
-        a: &Mesh<T, N>,
-        b: &Mesh<T, N>,
-        intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        boundary_faces: &AHashSet<usize>,
-    ) -> Option<(usize, usize)> {
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let v0 = seg.a.resulting_vertex.unwrap();
-            let v1 = seg.b.resulting_vertex.unwrap();
-
-            if let Some(&he) = a.edge_map.get(&(v0, v1)) {
-                for &face_id in &[
-                    a.half_edges[he].face,
-                    a.half_edges[a.half_edges[he].twin].face,
-                ] {
-                    if let Some(f) = face_id {
-                        if boundary_faces.contains(&f) {
-                            let centroid = a.face_centroid_fast(f);
-                            if b.point_in_mesh_2(&centroid.as_point_2()) {
-                                return Some((seg_idx, f));
-                            }
-                        }
-                    }
-                }
-            }
-        }
-        None
-    }
 }
 
 pub fn remove_duplicate_and_invalid_segments<T: Scalar + Eq + Hash, const N: usize>(
-- 
2.43.0


From 7a17184b0947c18ab25624ebc399944c5b916605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:56:38 +0000
Subject: [PATCH 33/36] fix: list the border vertices of a mesh with unused
 vertices

---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 27620da..9eadf02 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -443,7 +443,7 @@ impl_mesh! {
     // /// Returns all vertex indices that lie on at least one boundary loop.
     pub fn boundary_vertices(&self) -> Vec<usize> {
         (0..self.vertices.len())
-            .filter(|&v| self.is_boundary_vertex(v))
+            .filter(|&v| self.vertices[v].half_edge.is_some() && self.is_boundary_vertex(v))
             .collect()
     }
 
-- 
2.43.0


From ce2ce6085db678bd9fd42defbf2d8510761642d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:41:01 +0000
Subject: [PATCH 34/36] fix: keep triangles without area out of the
 triangulation of close points

---
 src/operations/triangulation/delaunay.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index bc066d4..92a8b5a 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -291,8 +291,12 @@ where
             return det > 0;
         }
 
-        // Uncertain cases: fallback to exact
+        // Uncertain cases: fallback to exact. A point inside an edge is inside the circle,
+        // however close to the tolerance the determinant is.
         incircle(a, b, c, p).is_positive()
+            || [(a, b), (b, c), (c, a)].into_iter().any(|(u, v)| {
+                p != u && p != v && on_segment(u, v, p)
+            })
     }
 
     /// Complete Bowyer-Watson with constraint handling
-- 
2.43.0


From 475640f98aeb122c377777306c1f4540b4ba0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:02:31 +0000
Subject: [PATCH 35/36] fix: let the connectivity check end on damaged meshes

---
 src/mesh/topology.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 9eadf02..cb19c43 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1755,12 +1755,19 @@ impl_mesh! {
             if let Some(f) = he.face {
                 // check that f really contains i somewhere in its cycle…
                 let mut cur = self.faces[f].half_edge;
+                let mut steps = 0;
                 loop {
                     if cur == i {
                         break;
                     }
                     cur = self.half_edges[cur].next;
-                    assert!(cur != self.faces[f].half_edge, "he {} not in face {}", i, f);
+                    steps += 1;
+                    assert!(
+                        cur != self.faces[f].half_edge && steps < self.half_edges.len(),
+                        "he {} not in face {}",
+                        i,
+                        f
+                    );
                 }
             }
         }
@@ -1787,6 +1794,7 @@ impl_mesh! {
             }
             let start = face.half_edge;
             let mut cur = start;
+            let mut steps = 0;
             loop {
                 assert_eq!(
                     self.half_edges[cur].face,
@@ -1795,6 +1803,8 @@ impl_mesh! {
                     fi,
                     cur
                 );
+                steps += 1;
+                assert!(steps <= self.half_edges.len(), "face {} is not a cycle", fi);
                 cur = self.half_edges[cur].next;
                 if cur == start {
                     break;
-- 
2.43.0


From 00feb4e4f58d1840be9d06b40800fa6e189e6176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:02:31 +0000
Subject: [PATCH 36/36] fix: round the radius of number enclosures up

---
 src/numeric/ball.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index e1fcdc8..932e994 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -69,6 +69,15 @@ impl Ball {
         (up - x).abs()
     }
 
+    /// Widens the radius to cover the rounding of its own computation.
+    #[inline]
+    fn outward(self) -> Self {
+        Ball {
+            m: self.m,
+            r: self.r * (1.0 + 8.0 * f64::EPSILON) + 4.0 * f64::from_bits(1),
+        }
+    }
+
     #[inline]
     pub fn add(self, o: Self) -> Self {
         let (s, e) = two_sum(self.m, o.m);
@@ -76,6 +85,7 @@ impl Ball {
             m: s,
             r: self.r + o.r + e.abs() + Self::widen_ulp(s),
         }
+        .outward()
     }
     #[inline]
     pub fn sub(self, o: Self) -> Self {
@@ -100,6 +110,7 @@ impl Ball {
                 + e.abs()
                 + Self::widen_ulp(p),
         }
+        .outward()
     }
 
     #[inline]
@@ -115,7 +126,7 @@ impl Ball {
         }
         // outward-bound: propagated radius plus the rounding of 1/m
         let r = self.r / denom + Self::widen_ulp(m);
-        Ball { m, r }
+        Ball { m, r }.outward()
     }
 
     #[inline]
-- 
2.43.0

