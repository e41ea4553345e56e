From c5747b274a7ad5bebcdc904ad34af8d905543ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:16 +0000
Subject: [PATCH 01/23] fix: SVD: stable vectors of the final 2x2 problem when
 one singular value is tiny

---
 src/svd.rs | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index e2f6105..dcecd87 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -378,33 +378,32 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let two = A::from(2.0).unwrap();
     let denom = (m11 + m22).hypot(m12) + (m11 - m22).hypot(m12);
 
-    // NOTE: v1 is the singular value that is the closest to m22.
-    // This prevents cancellation issues when constructing the vector `csv` below. If we chose
-    // otherwise, we would have v1 ~= m11 when m12 is small. This would cause catastrophic
-    // cancellation on `v1 * v1 - m11 * m11` below.
-    let mut v1 = m11 * m22 * two / denom;
-    let mut v2 = denom / two;
+    // NOTE: v1 is the smallest singular value (up to its sign) and v2 is the largest.
+    let v1 = m11 * m22 * two / denom;
+    let v2 = denom / two;
 
     let mut u = None;
     let mut v_t = None;
 
     if compute_v || compute_u {
-        let cv = m11 * m12;
-        let sv = v1 * v1 - m11 * m11;
-        let (csv, sgn_v) = GivensRotation::new(cv, sv);
-        v1 *= sgn_v;
-        v2 *= sgn_v;
+        // `csv` is the right-singular vector of `v1`, calculated from the row of
+        // `M.t * M - v1 * v1 * I` that does not suffer from cancellation.
+        let (cv, sv) = if m11.abs() >= m22.abs() {
+            (m11 * m12, (v1 - m11) * (v1 + m11))
+        } else {
+            (m12 * m12 + (m22 - v1) * (m22 + v1), -m11 * m12)
+        };
+        let (csv, _) = GivensRotation::new(cv, sv);
+
+        // The left-singular vectors are derived from `v2`, the largest singular value, because
+        // dividing by `v1` amplifies rounding errors if `v1` is small.
+        let cu = m22 * csv.c() / v2;
+        let su = (m11 * csv.s() - m12 * csv.c()) / v2;
         if compute_v {
-            v_t = Some(csv.clone());
+            v_t = Some(csv);
         }
-
-        let cu = (m11 * csv.c() + m12 * csv.s()) / v1;
-        let su = (m22 * csv.s()) / v1;
-        let (csu, sgn_u) = GivensRotation::new(cu, su);
-        v1 *= sgn_u;
-        v2 *= sgn_u;
         if compute_u {
-            u = Some(csu);
+            u = Some(GivensRotation::new(cu, su).0);
         }
     }
 
-- 
2.43.0


From dfc1cff2f742d7579db5c7f36ba7ff142255097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:24 +0000
Subject: [PATCH 02/23] fix: SVD: negate, instead of zeroing, the column of U
 of a negative singular value

---
 src/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index dcecd87..3ea8c14 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -215,7 +215,7 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
         if val.is_sign_negative() {
             diag[i] = -val;
             if let Some(u) = &mut u {
-                u.column_mut(i).mul_assign(-A::zero());
+                u.column_mut(i).mul_assign(-A::one());
             }
         }
     }
-- 
2.43.0


From 829c77f40673d538351bfd69db5635ccc8bf26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 03/23] fix: SVD: terminate on matrices with NaN or infinite
 entries

---
 src/svd.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index 3ea8c14..05b4ecf 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -236,9 +236,9 @@ fn delimit_subproblem<A: NdFloat>(
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(n).abs() + diag.at(m).abs())
-            {
+            // Negated comparison, so that NaN entries are split off instead of iterated on forever
+            #[allow(clippy::neg_cmp_op_on_partial_ord)]
+            if !(off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs())) {
                 *off_diag.atm(m) = A::zero();
             } else if diag.at(m).abs() <= eps {
                 *diag.atm(m) = A::zero();
@@ -265,8 +265,9 @@ fn delimit_subproblem<A: NdFloat>(
     while new_start > 0 {
         let m = new_start - 1;
 
+        #[allow(clippy::neg_cmp_op_on_partial_ord)]
         unsafe {
-            if off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs()) {
+            if !(off_diag.at(m).abs() > eps * (diag.at(new_start).abs() + diag.at(m).abs())) {
                 *off_diag.atm(m) = A::zero();
                 break;
             }
-- 
2.43.0


From cd2616f216835549ea4fc856fe3ed627899fa9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 04/23] fix: LOBPCG: project out constraints that are not
 orthonormal

---
 src/lobpcg/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9bdce9e..1b755cc 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -67,9 +67,14 @@ fn apply_constraints<A: NdFloat>(
 ) {
     let gram_yv = y.t().dot(&v);
 
+    // solves `(y.t . y) u = y.t . v` with the factorization `y.t . y = l . l.t`
     let u = cholesky_yy
         .solve_triangular_into(gram_yv, UPLO::Lower)
         .unwrap();
+    let u = cholesky_yy
+        .t()
+        .solve_triangular_into(u, UPLO::Upper)
+        .unwrap();
 
     // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
-- 
2.43.0


From 108e6018f950af63401590c3e7660a1b42e7fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:52 +0000
Subject: [PATCH 05/23] fix: Cholesky: reject NaN pivots

---
 src/cholesky.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cholesky.rs b/src/cholesky.rs
index f98091b..df9675e 100644
--- a/src/cholesky.rs
+++ b/src/cholesky.rs
@@ -66,7 +66,8 @@ where
                 d = *self.at((j, j)) - d;
             }
 
-            if d <= A::zero() {
+            // A NaN pivot is not positive either
+            if d.is_nan() || d <= A::zero() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
 
-- 
2.43.0


From 6fe26947960821c250d4c61ff35a083342adb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 06/23] fix: Householder: keep reflections orthogonal when
 squares of the column underflow or overflow

---
 src/eigh.rs        |  4 ++--
 src/householder.rs | 16 ++++++++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index d99f0ea..a2f1c18 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -178,9 +178,9 @@ fn delimit_subproblem<A: NdFloat>(
 ///     tmn  tnn
 pub(crate) fn wilkinson_shift<A: NdFloat>(tmm: A, tnn: A, tmn: A) -> A {
     if !tmn.is_zero() {
-        let tmn_sq = tmn * tmn;
         let d = (tmm - tnn) * A::from(0.5).unwrap();
-        tnn - tmn_sq / (d + d.signum() * (d * d + tmn_sq).sqrt())
+        // `tmn * tmn` could underflow to zero
+        tnn - tmn * (tmn / (d + d.signum() * d.hypot(tmn)))
     } else {
         tnn
     }
diff --git a/src/householder.rs b/src/householder.rs
index f1b51b2..2b79d7d 100644
--- a/src/householder.rs
+++ b/src/householder.rs
@@ -9,7 +9,19 @@ use crate::reflection::Reflection;
 pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
     col: &mut ArrayBase<S, Ix1>,
 ) -> Option<A> {
-    let reflection_norm_sq = col.dot(col);
+    // Scale the column if its squares would underflow or overflow
+    let mut scale = A::one();
+    let mut reflection_norm_sq = col.dot(col);
+    let tiny = A::min_positive_value() / (A::epsilon() * A::epsilon());
+    let huge = A::max_value() * A::epsilon();
+    if reflection_norm_sq < tiny || reflection_norm_sq > huge {
+        let max = col.fold(A::zero(), |max, x| max.max(x.abs()));
+        if !max.is_zero() && max.is_finite() {
+            scale = max;
+            *col /= scale;
+            reflection_norm_sq = col.dot(col);
+        }
+    }
     let reflection_norm = reflection_norm_sq.sqrt();
 
     let first = *col.get(0).unwrap();
@@ -21,7 +33,7 @@ pub fn reflection_axis_mut<A: NdFloat, S: DataMut<Elem = A>>(
 
     if !new_norm_sq.is_zero() {
         *col /= new_norm_sq.sqrt();
-        Some(-signed_norm)
+        Some(-signed_norm * scale)
     } else {
         None
     }
-- 
2.43.0


From 5b4a26234b945f9de02fa398ae81426b03d6702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 07/23] fix: TruncatedSvd: an empty result has no values,
 instead of panicking

---
 src/lobpcg/svd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index ac941af..155318c 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -35,9 +35,10 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap().reverse());
 
             // calculate cut-off magnitude (borrowed from scipy)
+            let max_eigval = a.first().map_or(A::zero(), |(_, x)| **x);
             let cutoff = A::epsilon() * // float precision
                          A::correction() * // correction term (see trait below)
-                         *a[0].1; // max eigenvalue
+                         max_eigval;
 
             // filter low singular values away
             let (values, indices): (Vec<A>, Vec<usize>) = a
-- 
2.43.0


From 7f88116556be6d513485f7f3d1b96e9389c42d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 08/23] fix: TruncatedSvd: smallest singular values are never
 NaN

---
 src/lobpcg/svd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index 155318c..31e4b4a 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -51,7 +51,11 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         } else {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
 
-            let (values, indices) = a.into_iter().map(|(a, b)| (b.sqrt(), a)).unzip();
+            // eigenvalues of zero singular values can be slightly negative
+            let (values, indices) = a
+                .into_iter()
+                .map(|(a, b)| (b.max(A::zero()).sqrt(), a))
+                .unzip();
 
             (values, indices)
         };
-- 
2.43.0


From 7a5737eb33b19b45561cd5555aef08f9872a2d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 09/23] fix: eigenvalues have standard layout, as sorting them
 requires

---
 src/tridiagonal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tridiagonal.rs b/src/tridiagonal.rs
index 29148c5..f8ec0b4 100644
--- a/src/tridiagonal.rs
+++ b/src/tridiagonal.rs
@@ -95,7 +95,8 @@ impl<A: NdFloat, S: DataMut<Elem = A>> TridiagonalDecomp<A, S> {
     /// arrays
     pub fn into_diagonals(self) -> (Array1<A>, Array1<A>) {
         (
-            self.diag_matrix.diag().to_owned(),
+            // `to_owned` would keep the memory order of a reversed diagonal
+            self.diag_matrix.diag().iter().copied().collect(),
             self.off_diagonal.mapv_into(A::abs),
         )
     }
-- 
2.43.0


From 5911da9e0f6aa6194fe8f529cab7e97b7d03c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 10/23] fix: TruncatedEigIterator: stop when the space left by
 preset constraints is exhausted

---
 src/lobpcg/eig.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/eig.rs b/src/lobpcg/eig.rs
index 2cc15e6..31ad61f 100644
--- a/src/lobpcg/eig.rs
+++ b/src/lobpcg/eig.rs
@@ -179,13 +179,19 @@ impl<A: NdFloat + Sum, R: Rng> IntoIterator for TruncatedEig<A, R> {
     fn into_iter(self) -> TruncatedEigIterator<A, R> {
         TruncatedEigIterator {
             step_size: 1,
-            remaining: self.problem.len_of(Axis(0)),
+            remaining: self.unconstrained_dim(),
             eig: self,
         }
     }
 }
 
 impl<A: NdFloat + Sum, R: Rng> TruncatedEig<A, R> {
+    /// Dimension of the space orthogonal to the constraints
+    fn unconstrained_dim(&self) -> usize {
+        let num_constraints = self.constraints.as_ref().map_or(0, |y| y.ncols());
+        self.problem.len_of(Axis(0)).saturating_sub(num_constraints)
+    }
+
     pub fn into_iter_step_size(self, step_size: usize) -> Result<TruncatedEigIterator<A, R>> {
         TruncatedEigIterator::new(self, step_size)
     }
@@ -230,7 +236,7 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEigIterator<A, R> {
         }
 
         Ok(TruncatedEigIterator {
-            remaining: obj.problem.len_of(Axis(0)),
+            remaining: obj.unconstrained_dim(),
             eig: obj,
             step_size,
         })
-- 
2.43.0


From eb6227934b44cef70f063b30bc6c4bf449f19a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 11/23] fix: eigh: no cancellation in the eigenvectors of the
 final 2x2 problem

---
 src/eigh.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index a2f1c18..82aee2d 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -108,7 +108,13 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            let basis = (eigvals.0 - diag[start + 1], off_diag[start]);
+
+            // Choose the row of the eigenvector equation that does not suffer from cancellation
+            let basis = if diag[start] >= diag[start + 1] {
+                (eigvals.0 - diag[start + 1], off_diag[start])
+            } else {
+                (off_diag[start], eigvals.0 - diag[start])
+            };
 
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
-- 
2.43.0


From b8c797e6da1aec428c823818f13c5a85d57e03dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 12/23] fix: LOBPCG: report an error, next to the best result,
 when the tolerance was not reached

---
 src/lib.rs              |  3 +++
 src/lobpcg/algorithm.rs | 16 +++++++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 05187cf..b64fb51 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,6 +54,9 @@ pub enum LinalgError {
     /// Wrong number of rows in matrix
     #[error("Matrix must have {expected} rows, not {actual}")]
     WrongRows { expected: usize, actual: usize },
+    /// Iterative algorithm did not reach the required tolerance
+    #[error("Algorithm did not converge to the required tolerance")]
+    NotConverged,
     /// ShapeError from `ndarray`
     #[error(transparent)]
     Shape(#[from] ShapeError),
diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 1b755cc..e9fbfc6 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -118,9 +118,10 @@ fn orthonormalize<T: NdFloat>(v: Array2<T>) -> Result<(Array2<T>, Array2<T>)> {
 /// * `order` - Whether to solve for the largest or lowest eigenvalues
 ///
 /// The function returns an `LobpcgResult` with the eigenvalue/eigenvector and achieved residual norm
-/// for it. All iterations are tracked and the optimal solution returned. In case of an error a
-/// special variant `LobpcgResult::NotConverged` additionally carries the error. This can happen when
-/// the precision of the matrix is too low (switch then from `f32` to `f64` for example).
+/// for it. All iterations are tracked and the optimal solution returned. In case of an error the
+/// optimal solution accompanies the error. This can happen when the maximal number of iterations is
+/// reached ([`LinalgError::NotConverged`]), or when the precision of the matrix is too low (switch
+/// then from `f32` to `f64` for example).
 pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayViewMut2<A>)>(
     a: F,
     mut x: Array2<A>,
@@ -195,7 +196,7 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     let mut previous_p_ap: Option<(Array2<A>, Array2<A>)> = None;
     let mut explicit_gram_flag = true;
 
-    let final_norm = loop {
+    let final_result = loop {
         // calculate residual
         let lambda_diag = Array2::from_diag(&lambda);
         let lambda_x = x.dot(&lambda_diag);
@@ -238,7 +239,7 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         // if we are below the threshold for all eigenvalue or exceeded the number of iteration,
         // abort
         if current_block_size == 0 || iter == 0 {
-            break Ok(residual_norms);
+            break Ok(());
         }
 
         // select active eigenvalues, apply pre-conditioner, orthogonalize to Y and orthonormalize
@@ -429,8 +430,9 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         rnorm,
     };
 
-    match final_norm {
-        Ok(_) => Ok(res),
+    match final_result {
+        Ok(()) if res.rnorm.iter().all(|norm| *norm <= tol) => Ok(res),
+        Ok(()) => Err((LinalgError::NotConverged, Some(res))),
         Err(err) => Err((err, Some(res))),
     }
 }
-- 
2.43.0


From 93dab51e3e981c9b28ba22c9c912a30bcb1bb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 13/23] fix: Givens rotations stay orthonormal when the norm is
 subnormal

---
 src/givens.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/givens.rs b/src/givens.rs
index 68944a2..21d17a8 100644
--- a/src/givens.rs
+++ b/src/givens.rs
@@ -17,10 +17,17 @@ impl<A: NdFloat> GivensRotation<A> {
     pub fn cancel_y(x: A, y: A) -> Option<(Self, A)> {
         // Not equivalent to nalgebra impl
         if !y.is_zero() {
+            // A subnormal norm is too coarse to divide by
+            let scale = A::min_positive_value();
+            let (x, y, scale) = if x.abs().max(y.abs()) < scale / A::epsilon() {
+                (x / scale, y / scale, scale)
+            } else {
+                (x, y, A::one())
+            };
             let r = x.hypot(y);
             let c = x / r;
             let s = -y / r;
-            Some((Self { c, s }, r))
+            Some((Self { c, s }, r * scale))
         } else {
             None
         }
-- 
2.43.0


From 306dc7c8172232231f072fb8fbdba63ab45ed73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:41 +0000
Subject: [PATCH 14/23] fix: in-place operations never write through shared
 (copy-on-write) storage in release builds

---
 src/index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/index.rs b/src/index.rs
index 85fd73a..9354224 100644
--- a/src/index.rs
+++ b/src/index.rs
@@ -39,6 +39,10 @@ impl<A, S: DataMut<Elem = A>, D: Dimension, I: NdIndex<D>> UncheckedIndexMut<I>
             self.get_mut(index).unwrap()
         }
         #[cfg(not(debug_assertions))]
-        self.uget_mut(index)
+        {
+            // Un-share copy-on-write storage first, which `uget_mut` doesn't do
+            self.as_mut_ptr();
+            self.uget_mut(index)
+        }
     }
 }
-- 
2.43.0


From 240c41eca2f0a04b76f3d2809dbad401dcdd83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:06 +0000
Subject: [PATCH 15/23] fix: symmetric eigendecomposition terminates when
 off-diagonal products underflow

---
 src/eigh.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index 82aee2d..ef917a7 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -143,12 +143,16 @@ fn delimit_subproblem<A: NdFloat>(
     end: usize,
     eps: A,
 ) -> (usize, usize) {
+    // Products of smaller elements underflow, which would stop the iteration from converging. They
+    // are negligible as the largest element of the matrix is 1.
+    let tiny = A::min_positive_value().sqrt();
     let mut n = end;
 
     while n > 0 {
         let m = n - 1;
         unsafe {
-            if off_diag.at(m).abs() > eps * (diag.at(n).abs() + diag.at(m).abs()) {
+            let off = off_diag.at(m).abs();
+            if off > tiny && off > eps * (diag.at(n).abs() + diag.at(m).abs()) {
                 break;
             }
         }
@@ -163,9 +167,8 @@ fn delimit_subproblem<A: NdFloat>(
     while new_start > 0 {
         let m = new_start - 1;
         unsafe {
-            if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs())
-            {
+            let off = off_diag.at(m).abs();
+            if off <= tiny || off <= eps * (diag.at(new_start).abs() + diag.at(m).abs()) {
                 *off_diag.atm(m) = A::zero();
                 break;
             }
-- 
2.43.0


From 489b56b69c40795466572a0a690838a6ba881ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 16/23] fix: LOBPCG leaves out numerically dependent directions
 instead of returning spurious vectors

---
 src/lobpcg/algorithm.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index e9fbfc6..bff8abc 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -13,10 +13,19 @@ use crate::{LinalgError, Order, Result};
 use super::{Lobpcg, LobpcgResult};
 
 /// Solve the generalized eigenvalue problem with pencil (A, B)
+///
+/// Directions in which `B` is numerically singular are left out, because they only consist of
+/// rounding errors.
 fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>, Array2<A>)> {
     let (vals_b, vecs_b) = b.eigh_into()?;
-    let vals_b_recip = vals_b.mapv_into(|x| (x.max(A::from(1e-10f32).unwrap())).sqrt().recip());
-    let vecs_b_tilde = vecs_b * vals_b_recip;
+    let cutoff = A::epsilon().sqrt() * vals_b.fold(A::zero(), |max, x| max.max(*x));
+    let regular = vals_b.iter().map(|x| *x > cutoff).collect::<Vec<_>>();
+    let vals_b_recip = vals_b
+        .iter()
+        .filter(|x| **x > cutoff)
+        .map(|x| x.sqrt().recip())
+        .collect::<Array1<_>>();
+    let vecs_b_tilde = ndarray_mask(vecs_b.view(), &regular) * vals_b_recip;
     let a_tilde = vecs_b_tilde.t().dot(&a.dot(&vecs_b_tilde));
     let (vals_a, vecs_a) = a_tilde.eigh_into()?;
     let vecs = vecs_b_tilde.dot(&vecs_a);
@@ -36,6 +45,10 @@ fn sorted_eig<A: NdFloat>(
         _ => a.eigh_into()?,
     };
 
+    if res.0.len() < size {
+        return Err(LinalgError::NotPositiveDefinite);
+    }
+
     // sort and ensure that signs are deterministic
     let (vals, vecs) = res.sort_eig(order);
     let s = vecs.row(0).mapv(|x| x.signum());
-- 
2.43.0


From 70ca870293a4a81c47e184923eb9ca2ba53c03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:14 +0000
Subject: [PATCH 17/23] fix: LOBPCG leaves out dependent and tiny directions of
 the residuals and conjugate vectors

---
 src/lobpcg/algorithm.rs | 86 +++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index bff8abc..18b5c48 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -114,6 +114,38 @@ fn orthonormalize<T: NdFloat>(v: Array2<T>) -> Result<(Array2<T>, Array2<T>)> {
     Ok((u, gram_vv_fac))
 }
 
+/// Combine the columns of `V` to an orthonormal basis of their linearly independent directions
+///
+/// Returns the matrix `T` such that `V T` is the basis. Directions which are tiny (compared to a
+/// length of `min_norm`) or which are dependent on others up to rounding errors are left out. This
+/// is slower than `orthonormalize`, but also works if the columns of `V` are linearly dependent.
+fn independent_directions<A: NdFloat + Sum>(v: ArrayView2<A>, min_norm: A) -> Result<Array2<A>> {
+    // weight all directions equally, regardless of their length
+    let scale = v
+        .columns()
+        .into_iter()
+        .map(|x| x.norm_l2())
+        .map(|norm| {
+            if norm > min_norm {
+                norm.recip()
+            } else {
+                A::zero()
+            }
+        })
+        .collect::<Array1<_>>();
+    let v = &v * &scale;
+
+    let (vals, vecs) = v.t().dot(&v).eigh_into()?;
+    let cutoff = A::epsilon().sqrt() * vals.fold(A::zero(), |max, x| max.max(*x));
+    let independent = vals.iter().map(|x| *x > cutoff).collect::<Vec<_>>();
+    if !independent.contains(&true) {
+        return Err(LinalgError::NotPositiveDefinite);
+    }
+
+    let vecs = vecs / vals.mapv(|x| x.sqrt()) * scale.insert_axis(Axis(1));
+    Ok(ndarray_mask(vecs.view(), &independent))
+}
+
 /// Eigenvalue solver for large symmetric positive definite (SPD) eigenproblems
 ///
 /// # Arguments
@@ -199,9 +231,6 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     let mut residual_norms_history = Vec::new();
     let mut best_result = None;
 
-    let mut previous_block_size = size_x;
-
-    let mut ident: Array2<A> = Array2::eye(size_x);
     let ident0: Array2<A> = Array2::eye(size_x);
     //let two: A = NumCast::from(2.0).unwrap();
     let two = A::from(2.0).unwrap();
@@ -242,12 +271,7 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             .map(|(x, a)| *x > tol && *a)
             .collect();
 
-        // resize identity block if necessary
         let current_block_size = activemask.iter().filter(|x| **x).count();
-        if current_block_size != previous_block_size {
-            previous_block_size = current_block_size;
-            ident = Array2::eye(current_block_size);
-        }
 
         // if we are below the threshold for all eigenvalue or exceeded the number of iteration,
         // abort
@@ -273,10 +297,16 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             &mut active_block_r,
         );
 
-        let (r, _) = match orthonormalize(active_block_r) {
-            Ok(x) => x,
-            Err(err) => break Err(err),
+        //
+        // the residuals can be linearly dependent, for example if `A` has a low rank
+        let r = match orthonormalize(active_block_r.clone()) {
+            Ok((r, _)) => r,
+            Err(_) => match independent_directions(active_block_r.view(), A::zero()) {
+                Ok(t) => active_block_r.dot(&t),
+                Err(err) => break Err(err),
+            },
         };
+        let residual_block_size = r.ncols();
 
         let ar = a(r.view());
 
@@ -312,27 +342,23 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             (
                 lambda_diag,
                 ident0.clone(),
-                ident.clone(),
-                Array2::zeros((size_x, current_block_size)),
+                Array2::eye(residual_block_size),
+                Array2::zeros((size_x, residual_block_size)),
             )
         };
 
         // mask and orthonormalize P and AP
-        let mut p_ap = previous_p_ap
-            .as_ref()
-            .and_then(|(p, ap)| {
-                let active_p = ndarray_mask(p.view(), &activemask);
-                let active_ap = ndarray_mask(ap.view(), &activemask);
+        //
+        // normalizing a direction of P also magnifies the rounding errors of its AP, hence leave
+        // out directions in which P is tiny compared to X
+        let mut p_ap = previous_p_ap.as_ref().and_then(|(p, ap)| {
+            let active_p = ndarray_mask(p.view(), &activemask);
+            let active_ap = ndarray_mask(ap.view(), &activemask);
 
-                orthonormalize(active_p).map(|x| (active_ap, x)).ok()
-            })
-            .and_then(|(active_ap, (active_p, p_r))| {
-                // orthonormalize AP with R^{-1} of A
-                let active_ap = active_ap.reversed_axes();
-                p_r.solve_triangular_into(active_ap, UPLO::Lower)
-                    .map(|active_ap| (active_p, active_ap.reversed_axes()))
-                    .ok()
-            });
+            independent_directions(active_p.view(), A::epsilon().sqrt())
+                .map(|t| (active_p.dot(&t), active_ap.dot(&t)))
+                .ok()
+        });
 
         // compute symmetric gram matrices and calculate solution of eigenproblem
         //
@@ -350,7 +376,7 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
                 let (pap, pp) = if explicit_gram_flag {
                     ((&pap + &pap.t()) / two, active_p.t().dot(active_p))
                 } else {
-                    (pap, ident.clone())
+                    (pap, Array2::eye(active_p.ncols()))
                 };
 
                 sorted_eig(
@@ -404,9 +430,9 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             // tau are eigenvalues to basis of X
             let tau = eig_vecs.slice(s![..size_x, ..]);
             // alpha are eigenvalues to basis of R
-            let alpha = eig_vecs.slice(s![size_x..size_x + current_block_size, ..]);
+            let alpha = eig_vecs.slice(s![size_x..size_x + residual_block_size, ..]);
             // gamma are eigenvalues to basis of P
-            let gamma = eig_vecs.slice(s![size_x + current_block_size.., ..]);
+            let gamma = eig_vecs.slice(s![size_x + residual_block_size.., ..]);
 
             // update AP and P in span{R, P} as linear combination
             let updated_p = r.dot(&alpha) + active_p.dot(&gamma);
-- 
2.43.0


From 7d16af75d003df941d72170b6523aeb236ac76c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:24 +0000
Subject: [PATCH 18/23] fix: LOBPCG resumes eigenvectors whose residual rises
 above the tolerance again

---
 src/lobpcg/algorithm.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 18b5c48..d4c756a 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -224,9 +224,6 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     let mut x = x.dot(&eig_block);
     let mut ax = ax.dot(&eig_block);
 
-    // track residual below threshold
-    let mut activemask = vec![true; size_x];
-
     // track residuals and best result
     let mut residual_norms_history = Vec::new();
     let mut best_result = None;
@@ -265,11 +262,7 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         }
 
         // disable eigenvalues which are below the tolerance threshold
-        activemask = residual_norms
-            .iter()
-            .zip(activemask.iter())
-            .map(|(x, a)| *x > tol && *a)
-            .collect();
+        let activemask = residual_norms.iter().map(|x| *x > tol).collect::<Vec<_>>();
 
         let current_block_size = activemask.iter().filter(|x| **x).count();
 
-- 
2.43.0


From b10f4fb1b2de763f9d6958479ca8d1fae06480b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 19/23] fix: LOBPCG keeps normalized blocks orthogonal to the
 constraints

---
 src/lobpcg/algorithm.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index d4c756a..65d1400 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -210,7 +210,13 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     });
 
     // orthonormalize the initial guess
-    let (x, _) = orthonormalize(x).map_err(|err| (err, None))?;
+    let (mut x, _) = orthonormalize(x).map_err(|err| (err, None))?;
+
+    // apply constraints again, as the normalization magnifies rounding errors of the first time
+    if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+        apply_constraints(x.view_mut(), cholesky_yy, y.view());
+        x = orthonormalize(x).map_err(|err| (err, None))?.0;
+    }
 
     // calculate AX and XAX for Rayleigh quotient
     let ax = a(x.view());
@@ -292,13 +298,17 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
 
         //
         // the residuals can be linearly dependent, for example if `A` has a low rank
-        let r = match orthonormalize(active_block_r.clone()) {
+        let mut r = match orthonormalize(active_block_r.clone()) {
             Ok((r, _)) => r,
             Err(_) => match independent_directions(active_block_r.view(), A::zero()) {
                 Ok(t) => active_block_r.dot(&t),
                 Err(err) => break Err(err),
             },
         };
+        // apply constraints again, as the normalization magnifies rounding errors of the first time
+        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+            apply_constraints(r.view_mut(), cholesky_yy, y.view());
+        }
         let residual_block_size = r.ncols();
 
         let ar = a(r.view());
-- 
2.43.0


From 8b694270f8ddbaa2f90787b734a8b22abd07a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 20/23] fix: LOBPCG returns the converged result, even if
 another one has a smaller sum of residuals

---
 src/lobpcg/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 65d1400..ecf1c2a 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -272,6 +272,11 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
 
         let current_block_size = activemask.iter().filter(|x| **x).count();
 
+        // a converged result is preferred, even if the residuals of another one have a smaller sum
+        if residual_norms.iter().all(|x| *x <= tol) {
+            best_result = Some((lambda.clone(), x.clone(), residual_norms.clone()));
+        }
+
         // if we are below the threshold for all eigenvalue or exceeded the number of iteration,
         // abort
         if current_block_size == 0 || iter == 0 {
-- 
2.43.0


From 511bff73333d7b984fdd79f2e79989473471f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:59 +0000
Subject: [PATCH 21/23] fix: TruncatedSvd: vectors of zero singular values are
 never NaN

---
 src/lobpcg/svd.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index 31e4b4a..a4cb48f 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -11,6 +11,17 @@ use std::iter::Sum;
 
 use rand::Rng;
 
+/// Divide a vector `A v` by its length, the singular value
+///
+/// The vector to a singular value of zero is not determined by `A v`, it is set to zero.
+fn scale_to_unit<A: NdFloat>(mut vector: ArrayViewMut1<A>, value: A) {
+    if value > A::zero() {
+        vector.mapv_inplace(|x| x / value);
+    } else {
+        vector.fill(A::zero());
+    }
+}
+
 /// The result of a eigenvalue decomposition, not yet transformed into singular values/vectors
 ///
 /// Provides methods for either calculating just the singular values with reduced cost or the
@@ -84,7 +95,7 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
                 .columns_mut()
                 .into_iter()
                 .zip(values.iter())
-                .for_each(|(mut a, b)| a.mapv_inplace(|x| x / *b));
+                .for_each(|(a, b)| scale_to_unit(a, *b));
 
             (ularge, vlarge)
         } else {
@@ -95,7 +106,7 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
                 .columns_mut()
                 .into_iter()
                 .zip(values.iter())
-                .for_each(|(mut a, b)| a.mapv_inplace(|x| x / *b));
+                .for_each(|(a, b)| scale_to_unit(a, *b));
 
             (ularge, vlarge)
         };
-- 
2.43.0


From 1a26ed1864ea11317851956d8625fad39ccd334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:44 +0000
Subject: [PATCH 22/23] fix: LOBPCG reports NaN values of the operator as an
 error, instead of panicking

---
 src/lobpcg/algorithm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index ecf1c2a..a2e277b 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -45,7 +45,8 @@ fn sorted_eig<A: NdFloat>(
         _ => a.eigh_into()?,
     };
 
-    if res.0.len() < size {
+    // NaN values cannot be sorted
+    if res.0.len() < size || res.0.iter().any(|x| x.is_nan()) {
         return Err(LinalgError::NotPositiveDefinite);
     }
 
-- 
2.43.0


From 7378c6e3b81cb1d04e9d20e43af9b27683f813c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:13 +0000
Subject: [PATCH 23/23] fix: LOBPCG orthonormalizes an ill-conditioned start
 block accurately

---
 src/lobpcg/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index a2e277b..b26e0de 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -216,9 +216,11 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     // apply constraints again, as the normalization magnifies rounding errors of the first time
     if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
         apply_constraints(x.view_mut(), cholesky_yy, y.view());
-        x = orthonormalize(x).map_err(|err| (err, None))?.0;
     }
 
+    // orthonormalize again, as the first time is inaccurate for an ill-conditioned guess
+    let (x, _) = orthonormalize(x).map_err(|err| (err, None))?;
+
     // calculate AX and XAX for Rayleigh quotient
     let ax = a(x.view());
     let xax = x.t().dot(&ax);
-- 
2.43.0

