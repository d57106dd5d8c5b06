From 88b5ff247ca6fcf32956976eca3133fce56e8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:41 +0000
Subject: [PATCH 01/21] fix: knot lookup does not stop at an earlier repeated
 knot

Knots::find_idx stopped at the first repeated knot it passed, even if that
knot differed from u, so that inserting or splitting to the right of a
repeated interior knot corrupted the curve. RightOrEqual also underflowed
for derivative order k = p at the start of the domain.
---
 src/curve/knots/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index d5c4b5e..fcb49b9 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -236,7 +236,8 @@ impl Knots {
 
                 while u >= Uk[i + 1] && i + 1 < lim {
                     i += 1;
-                    if Uk[i + 1] == Uk[i] {
+                    // stop at the first knot of a run of knots equal to `u`
+                    if Uk[i] == u {
                         break;
                     }
                 }
@@ -245,9 +246,10 @@ impl Knots {
             DomainKnotComparatorType::RightOrEqual => {
                 let mut i = Uk.len() - 1 - pk;
 
-                while u <= Uk[i - 1] && i > pk {
+                while i > pk && u <= Uk[i - 1] {
                     i -= 1;
-                    if Uk[i - 1] == Uk[i] {
+                    // stop at the last knot of a run of knots equal to `u`
+                    if Uk[i] == u {
                         break;
                     }
                 }
-- 
2.43.0


From 335df2af16a3bee15be0afceeaa07ff41665e3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 02/21] fix: refuse NaN parameters in insert and split

---
 src/manipulation/insert.rs | 2 +-
 src/manipulation/split.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index d79ae9a..8560001 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -33,7 +33,7 @@ pub enum InsertError {
 /// Knot insertion algorithm by Boehm
 /// `u` the knot to be inserted. The value must be in `u ∈ (0, 1)`
 pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
-    if u <= 0.0 || u >= 1.0 {
+    if u.is_nan() || u <= 0.0 || u >= 1.0 {
         return Err(InsertError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index a204ff3..e65ac05 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -43,7 +43,7 @@ pub fn split_and_normalize(
     u: f64,
     normalizeKnotVectors: (bool, bool),
 ) -> Result<(Curve, Curve), SplitError> {
-    if u <= 0.0 || u >= 1.0 {
+    if u.is_nan() || u <= 0.0 || u >= 1.0 {
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
-- 
2.43.0


From 51f7939ceb8f1f6f826ca405dd270f8a2fc77302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 03/21] fix: derivative curves provide their own derivatives

get_derivative_curve never derived the control points, so evaluating a
derivative of the result or asking for max_derivative panicked.
---
 src/curve/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 8f4bd9b..1d85133 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -324,7 +324,9 @@ impl Curve {
     pub fn get_derivative_curve(&self, k: usize) -> Self {
         let knots = Knots::new(self.degree() - k, self.knots.vector_derivative(k).clone());
         let points = ControlPoints::new(self.points.matrix_derivative(k).clone());
-        Curve { knots, points }
+        let mut curve = Curve { knots, points };
+        curve.calculate_derivatives();
+        curve
     }
 }
 
-- 
2.43.0


From 812470578d720080e817484d5d9e10874f1f8071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 04/21] fix: avoid underflow in Knots::segments_derivative for
 high orders

---
 src/curve/knots/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index fcb49b9..fb24ec0 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -108,7 +108,7 @@ impl Knots {
     }
 
     pub fn segments_derivative(&self, k: usize) -> usize {
-        self.Uk[k].len() - (self.p + 2 - 2 * k)
+        self.Uk[k].len() + 2 * k - (self.p + 2)
     }
 
     pub fn len(&self, k: usize) -> usize {
-- 
2.43.0


From 3a24674985c8cbbd1d6f6c5015efe35b78ba6a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 05/21] fix: merge curves with different numbers of segments

The adjusted control points of the right curve were computed with the
segment count of the left one, which panicked or read out of bounds.
---
 src/manipulation/merge.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 43f4c75..f7974ca 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -134,7 +134,7 @@ pub(crate) fn merge_with_constraints(a: &ConstrainedCurve, b: &ConstrainedCurve)
 
     // adjust control points
     let (Sadj, Tadj) =
-        adjust_shifted_control_points_of_both_splines(a.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
+        adjust_shifted_control_points_of_both_splines(a.curve, b.curve, &Sshifted, &Tshifted, &Vadj, &Wrev, &Wadj);
 
     // do actual merge
     let P_merged = generate_control_point_vector_of_merged_spline(a.curve, b.curve, &Sadj, &Tadj);
@@ -513,6 +513,7 @@ fn adjust_shifted_control_points(
 
 fn adjust_shifted_control_points_of_both_splines(
     a: &Curve,
+    b: &Curve,
     Sshifted: &MatD,
     Tshifted: &MatD,
     Vadj: &VecD,
@@ -520,19 +521,20 @@ fn adjust_shifted_control_points_of_both_splines(
     Wadjrev: &VecD,
 ) -> (MatD, MatD) {
     let p = a.degree();
-    let n = a.segments();
+    let m = a.segments();
+    let o = b.segments();
     let dim = a.dimension();
 
     let V0 = a.knots.vector();
 
     // obtain adjusted, shifted control points of the second spline
-    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, n, dim);
+    let Sadj = adjust_shifted_control_points(Sshifted, V0, Vadj, p, m, dim);
 
     // reverse control points of the second spline
     let P2shiftedrev = curve::points::reversed(Tshifted);
 
     // obtain adjusted, shifted control points of the reversed second spline
-    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, n, dim);
+    let Tadjrev = adjust_shifted_control_points(&P2shiftedrev, Wrev, Wadjrev, p, o, dim);
 
     // obtain adjusted, shifted control points of the second spline
     let Tadj = curve::points::reversed(&Tadjrev);
-- 
2.43.0


From c85fc4fc475eede07842401a46795e764624a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:47 +0000
Subject: [PATCH 06/21] fix: prepend_constrained applies each constraint set to
 its own curve

---
 src/curve/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/mod.rs b/src/curve/mod.rs
index 1d85133..f870b54 100644
--- a/src/curve/mod.rs
+++ b/src/curve/mod.rs
@@ -217,8 +217,8 @@ impl Curve {
         constraints_other: Constraints,
     ) -> &mut Self {
         let c = merge_with_constraints(
-            &ConstrainedCurve { curve: other, constraints: constraints_self },
-            &ConstrainedCurve { curve: self, constraints: constraints_other },
+            &ConstrainedCurve { curve: other, constraints: constraints_other },
+            &ConstrainedCurve { curve: self, constraints: constraints_self },
         )
         .unwrap();
         self.knots = c.knots;
-- 
2.43.0


From f70b01c091b7aaa576b63939a69ae77d8ba161a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:40 +0000
Subject: [PATCH 07/21] fix: merged curves of degree three and higher keep
 their shape

The list of derivative control points started with the zeroth order twice,
shifting every higher order by one when knots are adjusted for the merge.
---
 src/manipulation/merge.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index f7974ca..dac1d27 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -492,7 +492,8 @@ fn adjust_shifted_control_points(
         elem.push(Pshifted.column(i).into());
     }
 
-    for k in 0..=p - 1 {
+    // the zeroth derivative control point is the shifted control point itself and already present
+    for k in 1..=p - 1 {
         let derivative_point = generateDerivativeControlPoint(n - p + 1, k, Pshifted, U0, p, n, dim); //generateDerivativeControlPoint(n - p + 1, k, shifted_control_points, original_knot_vector);
         qki[n - p + 1].push(derivative_point);
     }
-- 
2.43.0


From 8ec82f8d9a19adfe47711d13fee777fb9d300066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:36 +0000
Subject: [PATCH 08/21] fix: return an error for a too large kappa in fixed-end
 fits

A fixed-end fit penalises the differences of the n-1 inner control points,
so that kappa = n-1 passed the input checks but panicked afterwards.
---
 src/curve/points/methods/fit/fixed.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0124b5c..fc5e2e6 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -20,6 +20,14 @@ pub fn fit(
 ) -> Result<MatD, FitError> {
     input_checks(knots, points, params, &penalization)?;
 
+    // the differences are taken over the `n-1` inner control points only
+    match (knots.segments(), &penalization) {
+        (n, Some(pen)) if n < pen.kappa + 2 => {
+            return Err(FitError::RequestedPolynomialSegmentAndPenalizationKappaMismatch { n, kappa: pen.kappa });
+        }
+        _ => {}
+    }
+
     let Q = generate_qvectors(knots, points, params);
     let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
     let Nmat = calculate_coefficient_matrix(knots, points, params);
-- 
2.43.0


From 9b5af4dbf9ce1f880611001b45cf3a0407b2e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:37 +0000
Subject: [PATCH 09/21] fix: fixed-end fits with a single segment do not panic

---
 src/curve/points/methods/fit/fixed.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index fc5e2e6..0235add 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -28,13 +28,6 @@ pub fn fit(
         _ => {}
     }
 
-    let Q = generate_qvectors(knots, points, params);
-    let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
-    let Nmat = calculate_coefficient_matrix(knots, points, params);
-
-    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
-
     let n = knots.segments();
     let m = points.segments();
     let mut control_points = MatD::zeros(points.dimension(), n + 1);
@@ -43,6 +36,18 @@ pub fn fit(
     control_points.column_mut(0).copy_from(&points.get(0));
     control_points.column_mut(n).copy_from(&points.get(m));
 
+    // A single segment has no internal control points that could be fitted
+    if n == 1 {
+        return Ok(control_points);
+    }
+
+    let Q = generate_qvectors(knots, points, params);
+    let Qmat = calculate_constant_terms_matrix(knots, points, params, &Q);
+    let Nmat = calculate_coefficient_matrix(knots, points, params);
+
+    let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
+    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
+
     // TODO copy matrix view instead of individual columns
     for i in 1..=n - 1 {
         control_points.column_mut(i).copy_from(&internal_control_points.column(i - 1));
-- 
2.43.0


From 346181418653d69e1b1fbcd62078c5a40561c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 10/21] fix: de Boor knots use the number of parameters, see
 eq. (9.68) in Piegl1997

The number of control points was used instead, so that the knots covered
only the first parameters if there are more parameters than control points.
---
 src/curve/knots/methods.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/knots/methods.rs b/src/curve/knots/methods.rs
index fd42ee1..a238764 100644
--- a/src/curve/knots/methods.rs
+++ b/src/curve/knots/methods.rs
@@ -87,7 +87,7 @@ pub fn de_boor(degree: usize, segments: usize, parameters: &Parameters) -> Resul
     let internal_knot_count = n - p;
     let internal_knot_spans = internal_knot_count + 1;
 
-    let d = (n + 1) as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
+    let d = U_bar.len() as f64 / (internal_knot_spans) as f64; // eq. 9.68 in `Piegl1997`
 
     let mut U = VecD::zeros(p + n + 2);
 
-- 
2.43.0


From 0804a75dd4899e7124c5bdc1f663e32b0ce8416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 11/21] fix: normalizing knots keeps the derivative vectors in
 step

---
 src/curve/knots/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/curve/knots/mod.rs b/src/curve/knots/mod.rs
index fb24ec0..6d4b54d 100644
--- a/src/curve/knots/mod.rs
+++ b/src/curve/knots/mod.rs
@@ -155,9 +155,9 @@ impl Knots {
     }
 
     pub fn normalize(&mut self) -> &mut Self {
-        for knots in self.Uk.iter_mut() {
-            normalize(knots);
-        }
+        // the derivative knot vectors must stay parts of the zeroth order one
+        let old_lim = (self.vector().min(), self.vector().max());
+        self.rescale(old_lim, (0.0, 1.0));
         self
     }
 
-- 
2.43.0


From 146dbfc1cb30a2bc9ab3846ae998827d0c7553b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 12/21] fix: de Boor knots never decrease for repeated
 parameters

---
 src/curve/knots/methods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/knots/methods.rs b/src/curve/knots/methods.rs
index a238764..f5175de 100644
--- a/src/curve/knots/methods.rs
+++ b/src/curve/knots/methods.rs
@@ -100,7 +100,8 @@ pub fn de_boor(degree: usize, segments: usize, parameters: &Parameters) -> Resul
         // Calculate the remainder
         let alpha = jd - i as f64;
 
-        U[degree + j] = (1f64 - alpha) * U_bar[i - 1] + alpha * U_bar[i];
+        // rounding must not carry the knot past the parameters it is interpolated between
+        U[degree + j] = ((1f64 - alpha) * U_bar[i - 1] + alpha * U_bar[i]).max(U_bar[i - 1]).min(U_bar[i]);
     }
 
     // Set the tail clamp to one.
-- 
2.43.0


From e20aa150ac5962a393958a6eed94342c56304d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:26 +0000
Subject: [PATCH 13/21] fix: parameters never exceed one when trailing data
 points coincide

---
 src/curve/parameters/methods.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/parameters/methods.rs b/src/curve/parameters/methods.rs
index 68bacf9..47b1416 100644
--- a/src/curve/parameters/methods.rs
+++ b/src/curve/parameters/methods.rs
@@ -38,7 +38,8 @@ pub fn centripetal(points: &DataPoints) -> Parameters {
 
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm().sqrt() / sum;
+        // summed up rounding errors must not exceed the last parameter
+        u_bar[g] = (u_bar[g - 1] + diff.norm().sqrt() / sum).min(1.0);
     }
 
     u_bar[m] = 1.0;
@@ -59,7 +60,8 @@ pub fn chord_length(points: &DataPoints) -> Parameters {
     let mut u_bar = VecD::zeros(m + 1);
     for g in 1..m {
         let diff = points.get(g) - points.get(g - 1);
-        u_bar[g] = u_bar[g - 1] + diff.norm() / sum;
+        // summed up rounding errors must not exceed the last parameter
+        u_bar[g] = (u_bar[g - 1] + diff.norm() / sum).min(1.0);
     }
 
     u_bar[m] = 1f64;
-- 
2.43.0


From 5bb4c66511728c9afd7c68402c460eaefbc94caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:33 +0000
Subject: [PATCH 14/21] fix: the numerical rank of linear systems is relative
 to their size

An absolute cut-off of 1.5e-8 discards singular values that matter: interpolating curves
miss their data points, constrained merges miss their constraints.
---
 src/curve/points/methods/fit/fixed.rs     | 4 +++-
 src/curve/points/methods/fit/loose.rs     | 4 +++-
 src/curve/points/methods/interpolation.rs | 4 +++-
 src/manipulation/merge.rs                 | 5 ++++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 0235add..399ef70 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -46,7 +46,9 @@ pub fn fit(
     let Nmat = calculate_coefficient_matrix(knots, points, params);
 
     let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
-    let internal_control_points = svd.solve(&Qmat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose();
+    // singular values are negligible relative to the largest one
+    let eps = f64::EPSILON * svd.singular_values.len() as f64 * svd.singular_values.max();
+    let internal_control_points = svd.solve(&Qmat.transpose(), eps).unwrap().transpose();
 
     // TODO copy matrix view instead of individual columns
     for i in 1..=n - 1 {
diff --git a/src/curve/points/methods/fit/loose.rs b/src/curve/points/methods/fit/loose.rs
index 2194e91..7183054 100644
--- a/src/curve/points/methods/fit/loose.rs
+++ b/src/curve/points/methods/fit/loose.rs
@@ -22,7 +22,9 @@ pub fn fit(
 
     let svd = compute_svd(knots, &Nmat, &penalization, Box::new(calculate_finite_difference_matrix))?;
     let mat = Nmat.transpose() * points.matrix().transpose();
-    let control_points = svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose();
+    // singular values are negligible relative to the largest one
+    let eps = f64::EPSILON * svd.singular_values.len() as f64 * svd.singular_values.max();
+    let control_points = svd.solve(&mat, eps).unwrap().transpose();
 
     Ok(control_points)
 }
diff --git a/src/curve/points/methods/interpolation.rs b/src/curve/points/methods/interpolation.rs
index a864bc0..cc20700 100644
--- a/src/curve/points/methods/interpolation.rs
+++ b/src/curve/points/methods/interpolation.rs
@@ -25,7 +25,9 @@ pub fn interpolate(knots: &Knots, points: &DataPoints, params: &Parameters) -> M
 
     let svd = SVD::new(Nmat, true, true);
     let mat = points.matrix().transpose();
-    svd.solve(&mat, f64::EPSILON.sqrt()).unwrap().transpose()
+    // singular values are negligible relative to the largest one
+    let eps = f64::EPSILON * svd.singular_values.len() as f64 * svd.singular_values.max();
+    svd.solve(&mat, eps).unwrap().transpose()
 }
 
 #[cfg(test)]
diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index dac1d27..88bfa75 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -397,7 +397,10 @@ fn solve_linear_equation_system(a: &ConstrainedCurve, b: &ConstrainedCurve) -> M
     let Nmat = construct_Nmat(a, b);
     let const_mat = constructConstMat(a.curve, b.curve, total_constraints);
 
-    SVD::new(Nmat, true, true).solve(&const_mat.transpose(), f64::EPSILON.sqrt()).unwrap().transpose()
+    let svd = SVD::new(Nmat, true, true);
+    // singular values are negligible relative to the largest one
+    let eps = f64::EPSILON * svd.singular_values.len() as f64 * svd.singular_values.max();
+    svd.solve(&const_mat.transpose(), eps).unwrap().transpose()
 }
 
 fn generate_shifted_control_point_vectors_of_spline1and2(a: &Curve, b: &Curve, shifts: &MatD) -> (MatD, MatD) {
-- 
2.43.0


From 096aa589e8ac6f56fbab950d9135b35e129ff5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:10 +0000
Subject: [PATCH 15/21] fix: solve linear systems with an accurate singular
 value decomposition

nalgebra's decomposition occasionally does not reproduce the matrix, e.g. interpolating
161 points with degree 2 or merging with some constraints moves the curve noticeably.
---
 src/curve/points/methods/fit/mod.rs       |  3 +-
 src/curve/points/methods/interpolation.rs |  5 +-
 src/lib.rs                                |  1 +
 src/linalg.rs                             | 67 +++++++++++++++++++++++
 src/manipulation/merge.rs                 |  4 +-
 5 files changed, 74 insertions(+), 6 deletions(-)
 create mode 100644 src/linalg.rs

diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index ab60832..6af7d15 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -7,6 +7,7 @@ use crate::{
         parameters::Parameters,
         points::DataPoints,
     },
+    linalg::svd,
     types::MatD,
 };
 
@@ -90,7 +91,7 @@ pub fn compute_svd(
         None => {}
     }
 
-    Ok(SVD::new(mat, true, true))
+    Ok(svd(mat))
 }
 
 // finite difference matrix penalizing BSplines
diff --git a/src/curve/points/methods/interpolation.rs b/src/curve/points/methods/interpolation.rs
index cc20700..a5811a8 100644
--- a/src/curve/points/methods/interpolation.rs
+++ b/src/curve/points/methods/interpolation.rs
@@ -1,11 +1,10 @@
-use nalgebra::SVD;
-
 use crate::{
     curve::{
         knots::Knots,
         parameters::Parameters,
         points::{DataPoints, Points},
     },
+    linalg::svd,
     types::MatD,
 };
 
@@ -23,7 +22,7 @@ pub fn interpolate(knots: &Knots, points: &DataPoints, params: &Parameters) -> M
         }
     }
 
-    let svd = SVD::new(Nmat, true, true);
+    let svd = svd(Nmat);
     let mat = points.matrix().transpose();
     // singular values are negligible relative to the largest one
     let eps = f64::EPSILON * svd.singular_values.len() as f64 * svd.singular_values.max();
diff --git a/src/lib.rs b/src/lib.rs
index 9059ef9..c092558 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -51,5 +51,6 @@ doc = ::embed_doc_image::embed_image!("img-curve", "doc-images/plots/manipulatio
 //! | Tai2003    | Tai, C.-L., Hu, S.-M., Huang, Q.-X., Approximate merging of B-spline curves via knot adjustment and constrained optimization, Comput. Des., 35(10) (2003) 893–899. |
 
 pub mod curve;
+mod linalg;
 pub mod manipulation;
 pub mod types;
diff --git a/src/linalg.rs b/src/linalg.rs
new file mode 100644
index 0000000..950d16b
--- /dev/null
+++ b/src/linalg.rs
@@ -0,0 +1,67 @@
+use nalgebra::{Dyn, SVD};
+
+use crate::types::{MatD, VecD};
+
+/// Computes the singular value decomposition of a square matrix.
+///
+/// The decomposition of `nalgebra` occasionally does not reproduce the matrix. In this case, it is computed with the
+/// slower but always accurate one-sided Jacobi method.
+pub fn svd(mat: MatD) -> SVD<f64, Dyn, Dyn> {
+    let svd = SVD::new(mat.clone(), true, true);
+    let error = (svd.clone().recompose().unwrap() - &mat).norm();
+
+    if error > 10. * mat.ncols() as f64 * f64::EPSILON * mat.norm() {
+        return jacobi_svd(mat);
+    }
+    svd
+}
+
+/// Rotates pairs of columns until all of them are orthogonal to each other.
+fn jacobi_svd(mat: MatD) -> SVD<f64, Dyn, Dyn> {
+    const MAX_SWEEPS: usize = 50;
+
+    let n = mat.ncols();
+    let mut u = mat;
+    let mut v = MatD::identity(n, n);
+
+    for _ in 0..MAX_SWEEPS {
+        let mut rotated = false;
+
+        for i in 0..n {
+            for j in i + 1..n {
+                let (a, b) = (u.column(i).norm_squared(), u.column(j).norm_squared());
+                let c = u.column(i).dot(&u.column(j));
+
+                if c.abs() <= f64::EPSILON * (a * b).sqrt() {
+                    continue;
+                }
+                rotated = true;
+
+                let zeta = (b - a) / (2. * c);
+                let tan = zeta.signum() / (zeta.abs() + zeta.hypot(1.));
+                let cos = 1. / tan.hypot(1.);
+                let sin = cos * tan;
+
+                for m in [&mut u, &mut v] {
+                    for row in 0..n {
+                        let (x, y) = (m[(row, i)], m[(row, j)]);
+                        m[(row, i)] = cos * x - sin * y;
+                        m[(row, j)] = sin * x + cos * y;
+                    }
+                }
+            }
+        }
+        if !rotated {
+            break;
+        }
+    }
+
+    let singular_values = VecD::from_fn(n, |i, _| u.column(i).norm());
+    for i in 0..n {
+        if singular_values[i] > 0. {
+            u.column_mut(i).unscale_mut(singular_values[i]);
+        }
+    }
+
+    SVD { u: Some(u), v_t: Some(v.transpose()), singular_values }
+}
diff --git a/src/manipulation/merge.rs b/src/manipulation/merge.rs
index 88bfa75..504702b 100644
--- a/src/manipulation/merge.rs
+++ b/src/manipulation/merge.rs
@@ -18,7 +18,6 @@ doc = ::embed_doc_image::embed_image!("merge-after-right-start-constrained", "do
 
 use std::ops::{AddAssign, DivAssign, SubAssign};
 
-use nalgebra::SVD;
 use thiserror::Error;
 
 use crate::{
@@ -29,6 +28,7 @@ use crate::{
         points::{ControlPoints, Points},
         Curve, CurveError,
     },
+    linalg::svd,
     manipulation::merge::MergeError::CurveGenerationFailure,
     types::{MatD, VecD, VecHelpers},
 };
@@ -397,7 +397,7 @@ fn solve_linear_equation_system(a: &ConstrainedCurve, b: &ConstrainedCurve) -> M
     let Nmat = construct_Nmat(a, b);
     let const_mat = constructConstMat(a.curve, b.curve, total_constraints);
 
-    let svd = SVD::new(Nmat, true, true);
+    let svd = svd(Nmat);
     // singular values are negligible relative to the largest one
     let eps = f64::EPSILON * svd.singular_values.len() as f64 * svd.singular_values.max();
     svd.solve(&const_mat.transpose(), eps).unwrap().transpose()
-- 
2.43.0


From a0d579b4f2935f6d2e826e1a2de0ad6e930600a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:06 +0000
Subject: [PATCH 16/21] fix: vector views beyond the end panic in release
 builds, too

---
 src/types.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/types.rs b/src/types.rs
index bec4c10..791a779 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -34,10 +34,12 @@ impl VecHelpers for VecD {
     }
 
     fn segment(&self, start: usize, n: usize) -> MatrixView<f64, Dyn, U1, U1, Dyn> {
+        assert_is_inside(start, n, self.len());
         self.generic_view((start, 0), (Dyn(n), U1))
     }
 
     fn segment_mut(&mut self, start: usize, n: usize) -> MatrixViewMut<f64, Dyn, U1, U1, Dyn> {
+        assert_is_inside(start, n, self.len());
         self.generic_view_mut((start, 0), (Dyn(n), U1))
     }
 
@@ -50,6 +52,14 @@ impl VecHelpers for VecD {
     }
 }
 
+// nalgebra compares `start + n`, which wraps around in builds without overflow checks
+fn assert_is_inside(start: usize, n: usize, len: usize) {
+    assert!(
+        start <= len && n <= len - start,
+        "The segment of {n} elements from index {start} exceeds the vector length {len}"
+    );
+}
+
 #[cfg(test)]
 mod vec_helpers {
     use nalgebra::dvector;
-- 
2.43.0


From 44c7c07ec696fe3332e5be882dd46a46093ac1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:37 +0000
Subject: [PATCH 17/21] fix: linear systems that are not finite do not hang

---
 src/linalg.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/linalg.rs b/src/linalg.rs
index 950d16b..6c28ca1 100644
--- a/src/linalg.rs
+++ b/src/linalg.rs
@@ -4,10 +4,16 @@ use crate::types::{MatD, VecD};
 
 /// Computes the singular value decomposition of a square matrix.
 ///
-/// The decomposition of `nalgebra` occasionally does not reproduce the matrix. In this case, it is computed with the
-/// slower but always accurate one-sided Jacobi method.
+/// The decomposition of `nalgebra` occasionally does not reproduce the matrix, and its iteration does not end for
+/// matrices with elements that are not finite. In these cases, it is computed with the slower but always accurate
+/// one-sided Jacobi method.
 pub fn svd(mat: MatD) -> SVD<f64, Dyn, Dyn> {
-    let svd = SVD::new(mat.clone(), true, true);
+    const MAX_ITERATIONS_PER_COLUMN: usize = 100;
+
+    let max_iterations = MAX_ITERATIONS_PER_COLUMN * mat.ncols();
+    let Some(svd) = SVD::try_new(mat.clone(), true, true, 5. * f64::EPSILON, max_iterations) else {
+        return jacobi_svd(mat);
+    };
     let error = (svd.clone().recompose().unwrap() - &mat).norm();
 
     if error > 10. * mat.ncols() as f64 * f64::EPSILON * mat.norm() {
-- 
2.43.0


From 5da41f5bdeb1ff029984870afac64604d0fed886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:11 +0000
Subject: [PATCH 18/21] fix: inserting and splitting check that the knots fit
 the points in release builds, too

---
 src/manipulation/insert.rs | 2 ++
 src/manipulation/split.rs  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/manipulation/insert.rs b/src/manipulation/insert.rs
index 8560001..78bcf12 100644
--- a/src/manipulation/insert.rs
+++ b/src/manipulation/insert.rs
@@ -44,6 +44,8 @@ pub fn insert(c: &mut Curve, u: f64) -> Result<(), InsertError> {
         return Err(InsertError::MultiplicityError { u, m, p });
     }
 
+    assert_eq!(c.knots.segments(), c.points.segments(), "The knots do not fit the number of control points.");
+
     let dim = c.points.dimension();
 
     let U_old = c.knots.vector();
diff --git a/src/manipulation/split.rs b/src/manipulation/split.rs
index e65ac05..ea9ed18 100644
--- a/src/manipulation/split.rs
+++ b/src/manipulation/split.rs
@@ -47,6 +47,8 @@ pub fn split_and_normalize(
         return Err(SplitError::OutOfBounds { u, lower_bound: 0.0, upper_bound: 1.0 });
     }
 
+    assert_eq!(c.knots.segments(), c.points.segments(), "The knots do not fit the number of control points.");
+
     let p = c.degree();
 
     let mut bs_inserted = c.clone();
-- 
2.43.0


From e168cf99b5fb957a56fe469a6bbcc8313da221a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:02 +0000
Subject: [PATCH 19/21] fix: end of the domain of curves that are not clamped

Behind the closed last interval, the basis functions of degree zero counted
a second interval beginning in its end, if the knots continue there. The
basis functions of an unclamped curve then summed up to two at `u = 1`.
---
 src/curve/basis/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/basis/mod.rs b/src/curve/basis/mod.rs
index 81bfb78..8e35cd6 100644
--- a/src/curve/basis/mod.rs
+++ b/src/curve/basis/mod.rs
@@ -28,7 +28,10 @@ use crate::types::VecD;
 /// - `U` the knot vector
 pub fn basis(Uk: &VecD, i: usize, p: usize, k: usize, n: usize, u: f64) -> f64 {
     if p == 0 {
-        if (Uk[i] <= u && u < Uk[i + 1]) || (i == n - k && u == Uk[n + 1 - k]) {
+        // no interval begins where the closed last one ends, also if further knots follow there
+        let is_behind_last = i + k > n && u == Uk[n + 1 - k];
+
+        if (Uk[i] <= u && u < Uk[i + 1] && !is_behind_last) || (i == n - k && u == Uk[n + 1 - k]) {
             return 1.0;
         }
         return 0.0;
-- 
2.43.0


From acbd04326ae06ecacc4199ac0d3cabd88e7f2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:49 +0000
Subject: [PATCH 20/21] fix: difference operator of high orders in time linear
 in the order

---
 src/curve/points/methods/fit/fixed.rs |  2 +-
 src/curve/points/methods/fit/loose.rs |  2 +-
 src/curve/points/methods/fit/mod.rs   | 24 +++++++++++-------------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/curve/points/methods/fit/fixed.rs b/src/curve/points/methods/fit/fixed.rs
index 399ef70..9db39e8 100644
--- a/src/curve/points/methods/fit/fixed.rs
+++ b/src/curve/points/methods/fit/fixed.rs
@@ -133,7 +133,7 @@ fn calculate_finite_difference_matrix(kappa: usize, knots: &Knots) -> MatD {
 
     for i in 0..=n - kappa - 2 {
         for j in 0..=n - 2 {
-            delta_mat[(i, j)] = difference_operator(i, j, kappa) as f64;
+            delta_mat[(i, j)] = difference_operator(i, j, kappa);
         }
     }
 
diff --git a/src/curve/points/methods/fit/loose.rs b/src/curve/points/methods/fit/loose.rs
index 7183054..086a061 100644
--- a/src/curve/points/methods/fit/loose.rs
+++ b/src/curve/points/methods/fit/loose.rs
@@ -54,7 +54,7 @@ fn calculate_finite_difference_matrix(kappa: usize, knots: &Knots) -> MatD {
 
     for i in 0..=n - kappa {
         for j in 0..=n {
-            delta_mat[(i, j)] = difference_operator(i, j, kappa) as f64;
+            delta_mat[(i, j)] = difference_operator(i, j, kappa);
         }
     }
 
diff --git a/src/curve/points/methods/fit/mod.rs b/src/curve/points/methods/fit/mod.rs
index 6af7d15..0dc8f9b 100644
--- a/src/curve/points/methods/fit/mod.rs
+++ b/src/curve/points/methods/fit/mod.rs
@@ -95,19 +95,17 @@ pub fn compute_svd(
 }
 
 // finite difference matrix penalizing BSplines
-fn difference_operator(i: usize, j: usize, kappa: usize) -> isize {
-    match kappa {
-        1 => {
-            if i == j {
-                return -1;
-            }
-            if i + 1 == j {
-                return 1;
-            }
-            0
-        }
-        k if k > 1 => difference_operator(i + 1, j, k - 1) - difference_operator(i, j, k - 1),
-        _ => 0,
+fn difference_operator(i: usize, j: usize, kappa: usize) -> f64 {
+    if kappa == 0 || j < i || j - i > kappa {
+        return 0.0;
+    }
+    // the binomial coefficients with alternating signs
+    let l = kappa - (j - i);
+    let binomial = (1..=l).fold(1.0, |b, r| b * (kappa + 1 - r) as f64 / r as f64);
+    if l % 2 == 0 {
+        binomial
+    } else {
+        -binomial
     }
 }
 
-- 
2.43.0


From 98be3358d7802a9f4a1ac826c58956f02f23802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 21/21] fix: fits with more segments than data are refused
 before the knots are allocated

---
 src/curve/generation/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/curve/generation/mod.rs b/src/curve/generation/mod.rs
index 11fa6ee..29cf2a2 100644
--- a/src/curve/generation/mod.rs
+++ b/src/curve/generation/mod.rs
@@ -115,6 +115,13 @@ pub fn generate(generation: Generation) -> Result<Curve, CurveError> {
             Curve::new(knots, points)
         }
         Generation::LeastSquaresFit { degree, points, intended_segments, method, penalization } => {
+            let (n, m) = (intended_segments, points.segments());
+            if n > m {
+                return Err(CurveError::FitError {
+                    err: fit::FitError::RequestedPolynomialSegmentAndDataSegementMismatch { n, m },
+                });
+            }
+
             // TODO allow other methods + uniform
             let params = parameters::generate(points, parameters::Method::EquallySpaced);
             let knots = knots::generate(degree, intended_segments, &params, knots::Method::Uniform)?;
-- 
2.43.0

