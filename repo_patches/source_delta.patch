From be1199492be9dfc1395abbb29479b1957ef4ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 01/79] fix: gemv: form beta*y also when op(A) has no columns

---
 include/tlapack/blas/gemv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/blas/gemv.hpp b/include/tlapack/blas/gemv.hpp
index 032a25e..036def6 100644
--- a/include/tlapack/blas/gemv.hpp
+++ b/include/tlapack/blas/gemv.hpp
@@ -79,7 +79,7 @@ void gemv(Op trans,
     tlapack_check_false((idx_t)size(y) != m);
 
     // quick return
-    if (m == 0 || n == 0) return;
+    if (m == 0) return;
 
     // form y := beta*y
     for (idx_t i = 0; i < m; ++i)
-- 
2.43.0


From 60d96e7459d693d7fa04d21d34037c291f998266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:59 +0000
Subject: [PATCH 02/79] fix: rotmg: do not overwrite the matrix when it is
 rescaled more than once

---
 include/tlapack/blas/rotmg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/blas/rotmg.hpp b/include/tlapack/blas/rotmg.hpp
index 5c760ce..e9aaf86 100644
--- a/include/tlapack/blas/rotmg.hpp
+++ b/include/tlapack/blas/rotmg.hpp
@@ -161,7 +161,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
@@ -188,7 +188,7 @@ int rotmg(T& d1, T& d2, T& a, const T& b, T h[4])
                         h[3] = one;
                         flag = -1;
                     }
-                    else {
+                    else if (flag == 1) {
                         h[1] = -one;
                         h[2] = one;
                         flag = -1;
-- 
2.43.0


From 40fc4b934962ff59088b6742ec75150414caccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 03/79] fix: rscl: real denominators below safe_min lost digits
 of tiny entries

---
 include/tlapack/lapack/rscl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/rscl.hpp b/include/tlapack/lapack/rscl.hpp
index 6931f17..06b4759 100644
--- a/include/tlapack/lapack/rscl.hpp
+++ b/include/tlapack/lapack/rscl.hpp
@@ -33,8 +33,10 @@ void rscl(const alpha_t& alpha, vector_t& x)
         scal(safeMax / alpha, x);
     }
     else if (r < safeMin) {
-        scal(safeMin / alpha, x);
+        // Scale up first: safeMin / alpha > 1, so this only overflows if the
+        // final result does, and tiny entries of x keep all their digits
         scal(safeMax, x);
+        scal(safeMin / alpha, x);
     }
     else
         scal(real_t(1) / alpha, x);
-- 
2.43.0


From 47cdb7c5559a280c1c0409baaf5d4fd745441bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 04/79] fix: larfg: no overflow in alpha - beta when beta is
 close to the overflow threshold

---
 include/tlapack/lapack/larfg.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/tlapack/lapack/larfg.hpp b/include/tlapack/lapack/larfg.hpp
index abb524c..15068c3 100644
--- a/include/tlapack/lapack/larfg.hpp
+++ b/include/tlapack/lapack/larfg.hpp
@@ -87,6 +87,7 @@ void larfg(storage_t storeMode,
     const real_t zero(0);
     const real_t safemin = safe_min<real_t>() / uroundoff<real_t>();
     const real_t rsafemin = one / safemin;
+    const real_t quarter(0.25);
 
     // check arguments
     tlapack_check(storeMode == StoreV::Columnwise ||
@@ -103,6 +104,7 @@ void larfg(storage_t storeMode,
 
         // Scale if needed
         idx_t knt = 0;
+        bool scaledDown = false;
         if (abs(beta) < safemin) {
             while ((abs(beta) < safemin) && (knt < 20)) {
                 knt++;
@@ -115,6 +117,13 @@ void larfg(storage_t storeMode,
                                 : lapy3(real(alpha), imag(alpha), xnorm);
             beta = (real(alpha) < zero) ? temp : -temp;
         }
+        else if (abs(beta) > safe_max<real_t>()) {
+            // alpha - beta could overflow
+            scaledDown = true;
+            scal(quarter, x);
+            beta *= quarter;
+            alpha *= quarter;
+        }
 
         // compute tau and y
         tau = (beta - alpha) / beta;
@@ -124,6 +133,7 @@ void larfg(storage_t storeMode,
         // Scale if needed
         for (idx_t j = 0; j < knt; ++j)
             beta *= safemin;
+        if (scaledDown) beta /= quarter;
 
         // Store beta in alpha
         alpha = beta;
-- 
2.43.0


From aa304636487ecd5bbd61371b12d04be64f9c24f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 05/79] fix: rscl: complex denominators without a safe
 reciprocal lost digits or underflowed

---
 include/tlapack/lapack/rscl.hpp | 59 +++++++++------------------------
 1 file changed, 15 insertions(+), 44 deletions(-)

diff --git a/include/tlapack/lapack/rscl.hpp b/include/tlapack/lapack/rscl.hpp
index 06b4759..e80944e 100644
--- a/include/tlapack/lapack/rscl.hpp
+++ b/include/tlapack/lapack/rscl.hpp
@@ -52,19 +52,10 @@ void rscl(const alpha_t& alpha, vector_t& x)
  * If alpha is complex, then we use the following algorithm:
  * 1. If the real part of alpha is zero, then scale by the reciprocal of the
  * imaginary part of alpha.
- * 2. If either real or imaginary part is greater than or equal to safeMax. If
- * so, do proper scaling using a reliable algorithm for complex division.
- * 3. If 1 and 2 are false, we can compute the reciprocal of real and imaginary
- * parts of 1/alpha without NaNs. If both components are in the safe range, then
- * we can do the reciprocal without overflow or underflow. Otherwise, we do
- * proper scaling.
- *
- * @note For complex alpha, it is important to always scale first by the
- * smallest factor. This avoids an early overflow that may lead to a NaN.
- * For example, if alpha = 5.877472e-39 + 2.802597e-45 * I and v[i] = 30 + 30 *
- * I in single precision, we want to scale v[i] first by (safeMin / alpha) and
- * after that scale the result by safeMax. Doing it the other way around will
- * possibly lead to a (Inf - Inf) which should be tagged as a NaN.
+ * 2. Otherwise, we compute the reciprocal of the real and imaginary parts of
+ * 1/alpha. If both are in the safe range, then we can form 1/alpha without
+ * overflow or underflow. If they are not, we divide each entry with a reliable
+ * algorithm for complex division.
  *
  * @param[in] alpha Scalar.
  * @param[in,out] x A n-element vector.
@@ -76,8 +67,11 @@ template <TLAPACK_VECTOR vector_t,
           enable_if_t<is_complex<alpha_t>, int> = 0>
 void rscl(const alpha_t& alpha, vector_t& x)
 {
+    using T = type_t<vector_t>;
+    using idx_t = size_type<vector_t>;
     using real_t = real_type<alpha_t>;
 
+    const idx_t n = size(x);
     const real_t safeMax = safe_max<real_t>();
     const real_t safeMin = safe_min<real_t>();
     const real_t zero(0);
@@ -85,7 +79,6 @@ void rscl(const alpha_t& alpha, vector_t& x)
 
     const real_t alphaR = real(alpha);
     const real_t alphaI = imag(alpha);
-    const real_t absR = abs(alphaR);
     const real_t absI = abs(alphaI);
 
     if (alphaI == zero) {
@@ -102,8 +95,8 @@ void rscl(const alpha_t& alpha, vector_t& x)
             scal(alpha_t(zero, -safeMax / alphaI), x);
         }
         else if (absI < safeMin) {
-            scal(alpha_t(zero, -safeMin / alphaI), x);
-            scal(safeMax, x);
+            for (idx_t i = 0; i < n; ++i)
+                x[i] = T(ladiv(alpha_t(x[i]), alpha));
         }
         else
             scal(alpha_t(zero, -one / alphaI), x);
@@ -120,40 +113,18 @@ void rscl(const alpha_t& alpha, vector_t& x)
         real_t a = alphaR + alphaI * (alphaI / alphaR);
         real_t b = alphaI + alphaR * (alphaR / alphaI);
 
-        if (abs(a) < safeMin || abs(b) < safeMin) {
-            // This means that both alphaR and alphaI are very small.
-            scal(alpha_t(safeMin / a, -safeMin / b), x);
-            scal(safeMax, x);
-        }
-        else if (abs(a) > safeMax || abs(b) > safeMax) {
+        if (abs(a) < safeMin || abs(b) < safeMin || abs(a) > safeMax ||
+            abs(b) > safeMax) {
             if (isinf(alphaR) || isinf(alphaI)) {
                 // This means that a and b are both Inf. No need for scaling.
                 // Propagates zero.
                 scal(alpha_t(one / a, -one / b), x);
             }
             else {
-                scal(safeMin, x);
-                if (isinf(a) || isinf(b)) {
-                    // Infs were generated. We do proper scaling to avoid them.
-                    if (absR >= absI) {
-                        // |a| <= |b|
-                        a = (safeMin * alphaR) +
-                            safeMin * (alphaI * (alphaI / alphaR));
-                        b = (safeMin * alphaI) +
-                            alphaR * ((safeMin * alphaR) / alphaI);
-                    }
-                    else {
-                        // |a| > |b|
-                        a = (safeMin * alphaR) +
-                            alphaI * ((safeMin * alphaI) / alphaR);
-                        b = (safeMin * alphaI) +
-                            safeMin * (alphaR * (alphaR / alphaI));
-                    }
-                    scal(alpha_t(one / a, -one / b), x);
-                }
-                else {
-                    scal(alpha_t(safeMax / a, -safeMax / b), x);
-                }
+                // 1/alpha cannot be formed without underflow, overflow or loss
+                // of digits, so divide each entry.
+                for (idx_t i = 0; i < n; ++i)
+                    x[i] = T(ladiv(alpha_t(x[i]), alpha));
             }
         }
         else {
-- 
2.43.0


From c46e19b91f0830e0696b17a1c5e669a610fd2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 06/79] fix: infnorm_*_colmajor: compute the norm of lower unit
 triangles, do not write past the workspace, instantiate

---
 include/tlapack/lapack/infnorm_colmajor.hpp        |  5 ++++-
 .../tlapack/lapack/infnorm_hermitian_colmajor.hpp  |  9 ++++++---
 .../tlapack/lapack/infnorm_symmetric_colmajor.hpp  |  9 ++++++---
 .../tlapack/lapack/infnorm_triangular_colmajor.hpp | 14 +++++++-------
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/tlapack/lapack/infnorm_colmajor.hpp b/include/tlapack/lapack/infnorm_colmajor.hpp
index 7ca5d24..0f67ef2 100644
--- a/include/tlapack/lapack/infnorm_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_colmajor.hpp
@@ -65,7 +65,7 @@ auto infnorm_colmajor_work(const matrix_t& A, work_t& work)
             w[i] += abs(A(i, j));
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -95,6 +95,9 @@ auto infnorm_colmajor(const matrix_t& A)
     using real_t = real_type<T>;
     using idx_t = size_type<matrix_t>;
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
diff --git a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
index 474063d..f9a9f62 100644
--- a/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_hermitian_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -82,7 +82,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(real(A(j, j)));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_hermitian_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(real(A(j, j)));
+            real_t sum = real(w[j]) + abs(real(A(j, j)));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -134,6 +134,9 @@ auto infnorm_hermitian_colmajor(uplo_t uplo, const matrix_t& A)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // constants
     const idx_t n = nrows(A);
 
diff --git a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
index 9cf0a0a..759e998 100644
--- a/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_symmetric_colmajor.hpp
@@ -69,7 +69,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     real_t norm(0);
 
     for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
+        w[i] = real_t(0);
 
     if (uplo == Uplo::Upper) {
         for (idx_t j = 0; j < n; ++j) {
@@ -82,7 +82,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
             w[j] = sum + abs(A(j, j));
         }
         for (idx_t i = 0; i < n; ++i) {
-            real_t sum = w[i];
+            real_t sum = real(w[i]);
             if (sum > norm)
                 norm = sum;
             else {
@@ -92,7 +92,7 @@ auto infnorm_symmetric_colmajor_work(uplo_t uplo,
     }
     else {
         for (idx_t j = 0; j < n; ++j) {
-            real_t sum = w[j] + abs(A(j, j));
+            real_t sum = real(w[j]) + abs(A(j, j));
             for (idx_t i = j + 1; i < n; ++i) {
                 const real_t absa = abs(A(i, j));
                 sum += absa;
@@ -134,6 +134,9 @@ auto infnorm_symmetric_colmajor(uplo_t uplo, const matrix_t& A)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // constants
     const idx_t n = nrows(A);
 
diff --git a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
index 967f94d..295d9a3 100644
--- a/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
+++ b/include/tlapack/lapack/infnorm_triangular_colmajor.hpp
@@ -81,9 +81,6 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     // Norm value
     real_t norm(0);
 
-    for (idx_t i = 0; i < n; ++i)
-        w[i] = T(0);
-
     if (uplo == Uplo::Upper) {
         if (diag == Diag::NonUnit) {
             for (idx_t i = 0; i < m; ++i)
@@ -118,7 +115,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
             for (idx_t i = n; i < m; ++i)
                 w[i] = real_t(0);
 
-            for (idx_t j = 1; j < n; ++j) {
+            for (idx_t j = 0; j < n; ++j) {
                 for (idx_t i = j + 1; i < m; ++i)
                     w[i] += abs(A(i, j));
             }
@@ -126,7 +123,7 @@ auto infnorm_triangular_colmajor_work(uplo_t uplo,
     }
 
     for (idx_t i = 0; i < m; ++i) {
-        real_t temp = w[i];
+        real_t temp = real(w[i]);
 
         if (temp > norm)
             norm = temp;
@@ -169,6 +166,9 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check_false(diag != Diag::NonUnit && diag != Diag::Unit);
 
+    // Functor
+    Create<matrix_t> new_matrix;
+
     // constants
     const idx_t m = nrows(A);
     const idx_t n = ncols(A);
@@ -177,11 +177,11 @@ auto infnorm_triangular_colmajor(uplo_t uplo, diag_t diag, const matrix_t& A)
     if (m == 0 || n == 0) return real_t(0);
 
     // Allocates workspace
-    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, A);
+    WorkInfo workinfo = infnorm_triangular_colmajor_worksize<T>(uplo, diag, A);
     std::vector<T> work_;
     auto work = new_matrix(work_, workinfo.m, workinfo.n);
 
-    return infnorm_triangular_colmajor_work(uplo, A, work);
+    return infnorm_triangular_colmajor_work(uplo, diag, A, work);
 }
 
 }  // namespace tlapack
-- 
2.43.0


From 8821c645a6aa2e85a89477aef7d7414b3c34b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 07/79] fix: hasnan, hasinf, lascl: upper Hessenberg access
 stays inside the matrix

---
 include/tlapack/lapack/hasinf.hpp | 2 +-
 include/tlapack/lapack/hasnan.hpp | 2 +-
 include/tlapack/lapack/lascl.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/hasinf.hpp b/include/tlapack/lapack/hasinf.hpp
index e6172f3..feea0a2 100644
--- a/include/tlapack/lapack/hasinf.hpp
+++ b/include/tlapack/lapack/hasinf.hpp
@@ -54,7 +54,7 @@ bool hasinf(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isinf(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/hasnan.hpp b/include/tlapack/lapack/hasnan.hpp
index 18c8a84..688a438 100644
--- a/include/tlapack/lapack/hasnan.hpp
+++ b/include/tlapack/lapack/hasnan.hpp
@@ -54,7 +54,7 @@ bool hasnan(uplo_t uplo, const matrix_t& A)
 
     if (uplo == Uplo::UpperHessenberg) {
         for (idx_t j = 0; j < n; ++j)
-            for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+            for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                 if (isnan(A(i, j))) return true;
         return false;
     }
diff --git a/include/tlapack/lapack/lascl.hpp b/include/tlapack/lapack/lascl.hpp
index 0d760ee..d17cf00 100644
--- a/include/tlapack/lapack/lascl.hpp
+++ b/include/tlapack/lapack/lascl.hpp
@@ -130,7 +130,7 @@ int lascl(uplo_t uplo, const b_type& b, const a_type& a, matrix_t& A)
 
         if (uplo == Uplo::UpperHessenberg) {
             for (idx_t j = 0; j < n; ++j)
-                for (idx_t i = 0; i < ((j < m) ? j + 2 : m); ++i)
+                for (idx_t i = 0; i < ((j + 1 < m) ? j + 2 : m); ++i)
                     A(i, j) *= c;
         }
         else if (uplo == Uplo::Upper) {
-- 
2.43.0


From 324ab4bf6d8b6e26c311e947f7bb7773f597da5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:07 +0000
Subject: [PATCH 08/79] fix: StrongZero: dividing a complex number by a strong
 zero gives infinity

---
 include/tlapack/base/StrongZero.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/base/StrongZero.hpp b/include/tlapack/base/StrongZero.hpp
index 3e1e46f..0c63718 100644
--- a/include/tlapack/base/StrongZero.hpp
+++ b/include/tlapack/base/StrongZero.hpp
@@ -89,7 +89,7 @@ struct StrongZero {
     template <typename T>
     friend constexpr T& operator/=(T& lhs, StrongZero) noexcept
     {
-        return (lhs = std::numeric_limits<T>::infinity());
+        return (lhs = T(std::numeric_limits<real_type<T>>::infinity()));
     }
 
     // Arithmetic operators
@@ -159,7 +159,7 @@ struct StrongZero {
     template <typename T>
     friend constexpr T operator/(const T&, StrongZero) noexcept
     {
-        return std::numeric_limits<T>::infinity();
+        return T(std::numeric_limits<real_type<T>>::infinity());
     }
 
     // Change of sign
-- 
2.43.0


From 83161754d1fa32068c8208121e4e8dbf85b22680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 09/79] fix: trmm_out, trsm_tri, ul_mult: empty operands end
 the recursion

---
 include/tlapack/lapack/trmm_out.hpp | 3 +++
 include/tlapack/lapack/trsm_tri.hpp | 3 +++
 include/tlapack/lapack/ul_mult.hpp  | 2 +-
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/trmm_out.hpp b/include/tlapack/lapack/trmm_out.hpp
index 4772496..acea4b0 100644
--- a/include/tlapack/lapack/trmm_out.hpp
+++ b/include/tlapack/lapack/trmm_out.hpp
@@ -99,6 +99,9 @@ void trmm_out(Side side,
     m = (transB == Op::NoTrans) ? nrows(B) : ncols(B);
     n = (transB == Op::NoTrans) ? ncols(B) : nrows(B);
 
+    // quick return
+    if (m == 0 || n == 0) return;
+
     if (transB == Op::NoTrans) {
         if (uplo == Uplo::Upper) {
             if (diag == Diag::NonUnit) {
diff --git a/include/tlapack/lapack/trsm_tri.hpp b/include/tlapack/lapack/trsm_tri.hpp
index 8330517..4315779 100644
--- a/include/tlapack/lapack/trsm_tri.hpp
+++ b/include/tlapack/lapack/trsm_tri.hpp
@@ -118,6 +118,9 @@ void trsm_tri(Side sideA,
 
     idx_t n = nrows(A);
 
+    // quick return
+    if (n == 0) return;
+
     // lascl(uploB, T(1.), alpha, B); this does not work
 
     if (uploB == Uplo::Upper) {
diff --git a/include/tlapack/lapack/ul_mult.hpp b/include/tlapack/lapack/ul_mult.hpp
index f9ba976..d652105 100644
--- a/include/tlapack/lapack/ul_mult.hpp
+++ b/include/tlapack/lapack/ul_mult.hpp
@@ -44,7 +44,7 @@ int ul_mult(matrix_t& A)
     const idx_t n = ncols(A);
 
     // if L and U are 1-by-1, then L is 1 and we simply UL=A(0,0)
-    if (n == 1) return 0;
+    if (n <= 1) return 0;
 
     // if n>1
     idx_t n0 = n / 2;
-- 
2.43.0


From 795b7af36d6d54c10a17b55aaa4c9e2d67535bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 10/79] fix: mult_hehe: empty operands, no output to the
 console

---
 include/tlapack/lapack/mult_hehe.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/mult_hehe.hpp b/include/tlapack/lapack/mult_hehe.hpp
index 3943cc8..58674f4 100644
--- a/include/tlapack/lapack/mult_hehe.hpp
+++ b/include/tlapack/lapack/mult_hehe.hpp
@@ -70,7 +70,10 @@ void mult_hehe(Uplo uplo,
 
     if (m != n) return;
 
-    if (n <= 1) {
+    // quick return
+    if (n == 0) return;
+
+    if (n == 1) {
         C(0, 0) = alpha * real(A(0, 0)) * real(B(0, 0)) + beta * C(0, 0);
         return;
     }
@@ -137,8 +140,6 @@ void mult_hehe(Uplo uplo,
         auto C10 = slice(C, range(n0, n), range(0, n0));
         auto C11 = slice(C, range(n0, n), range(n0, n));
 
-        std::cout << std::endl;
-
         // A00*B00 = C00
         mult_hehe(LOWER_TRIANGLE, alpha, A00, B00, beta, C00);
 
-- 
2.43.0


From 09f348620a51ea09385b9d544e60a914aff135e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 11/79] fix: rot_sequence3: startup phase rotated all columns
 once per block of 256

---
 include/tlapack/lapack/rot_sequence3.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index d9c9ee0..b5b0f34 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -133,7 +133,7 @@ void rot_sequence3(
                 for (idx_t ib = 0; ib < n; ib += nb) {
                     idx_t ib2 = std::min(ib + nb, n);
                     // Startup phase
-                    for (idx_t i1 = 0; i1 < n; ++i1) {
+                    for (idx_t i1 = ib; i1 < ib2; ++i1) {
                         for (idx_t j = 0; j < l - 1; ++j) {
                             for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                                 idx_t g = m - 2 - g2;
@@ -536,7 +536,7 @@ void rot_sequence3(
                     for (idx_t j = 0; j < l - 1; ++j) {
                         for (idx_t i = 0, g2 = j; i < j + 1; ++i, --g2) {
                             idx_t g = m - 2 - g2;
-                            for (idx_t i1 = 0; i1 < n; ++i1) {
+                            for (idx_t i1 = ib; i1 < ib2; ++i1) {
                                 T temp =
                                     C(g, i) * A(g, i1) + S(g, i) * A(g + 1, i1);
                                 A(g + 1, i1) = -conj(S(g, i)) * A(g, i1) +
-- 
2.43.0


From 63ec10e69541c7b04a728f23d32bc5c2da5d0887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:53 +0000
Subject: [PATCH 12/79] fix: rot_sequence, rot_sequence3: the documented order
 of the rotations was reversed

---
 include/tlapack/lapack/rot_sequence.hpp  | 4 ++--
 include/tlapack/lapack/rot_sequence3.hpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index f370bb9..55c7080 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -33,11 +33,11 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1) * P(k-2) * ... * P(1) * P(0)
+ *    P = P(0) * P(1) * ... * P(k-2) * P(k-1)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0) * P(1) * ... * P(k-2) * P(k-1),
+ *    P = P(k-1) * P(k-2) * ... * P(1) * P(0),
  *
  * when P(i) is a plane rotation matrix defined as
  *
diff --git a/include/tlapack/lapack/rot_sequence3.hpp b/include/tlapack/lapack/rot_sequence3.hpp
index b5b0f34..6e8315a 100644
--- a/include/tlapack/lapack/rot_sequence3.hpp
+++ b/include/tlapack/lapack/rot_sequence3.hpp
@@ -31,13 +31,13 @@ namespace tlapack {
  *
  * When direction = Direction::Forward, then
  *
- *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
- *        * ... * P(k-1,0) * ... * P(0,0)
+ *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
+ *        * ... * P(0,0) * ... * P(k-1,0)
  *
  * and when direction = Direction::Backward, then
  *
- *    P = P(0,l-1) * ... * P(k-1,l-1) * ... * P(0,l-2) * ... * P(k-1,l-2)
- *        * ... * P(0,0) * ... * P(k-1,0)
+ *    P = P(k-1,l-1) * ... * P(0,l-1) * ... * P(k-1,l-2) * ... * P(0,l-2)
+ *        * ... * P(k-1,0) * ... * P(0,0)
  *
  * where P(i,j) is a plane rotation matrix defined as
  *
-- 
2.43.0


From 3086519372d1608860a40a5c444fbce6162428bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 13/79] fix: slice of a backward LegacyVector selected elements
 from the wrong end

---
 include/tlapack/plugins/legacyArray.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 744eeca..3efe54e 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -381,7 +381,11 @@ constexpr auto slice(const LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<const T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward)
+            ? &v.ptr[rows.first * v.inc]
+            : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // -----------------------------------------------------------------------------
@@ -569,7 +573,11 @@ constexpr auto slice(LegacyVector<T, idx_t, int_t, direction>& v,
     assert(rows.second >= 0 and (idx_t) rows.second <= size(v));
     assert(rows.first <= rows.second);
     return LegacyVector<T, idx_t, int_t, direction>(
-        rows.second - rows.first, &v.ptr[rows.first * v.inc], v.inc);
+        rows.second - rows.first,
+        (direction == Direction::Forward)
+            ? &v.ptr[rows.first * v.inc]
+            : &v.ptr[(v.n - rows.second) * v.inc],
+        v.inc);
 }
 
 // Reshape LegacyMatrix
-- 
2.43.0


From abe7e81674a444aa92dd72da74a7c40e5e309eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 14/79] fix: larf: size check of x ignored the size because of
 operator precedence

---
 include/tlapack/lapack/larf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index 49426ec..a2fe9cf 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -68,7 +68,7 @@ void larf_work(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -282,7 +282,7 @@ void larf(side_t side,
     tlapack_check(side == Side::Left || side == Side::Right);
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
-    tlapack_check((idx_t)size(x) == (side == Side::Left) ? m : n);
+    tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From 7c227d667b1c67714e6d88c89535836b10b0ee81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 15/79] fix: unm*, unmhr: workspace queries and empty ranges of
 reflectors do not index column 0 of an empty matrix

---
 include/tlapack/lapack/unm2l.hpp       | 3 +++
 include/tlapack/lapack/unm2r.hpp       | 3 +++
 include/tlapack/lapack/unmhr.hpp       | 6 ++++++
 include/tlapack/lapack/unml2.hpp       | 3 +++
 include/tlapack/lapack/unmq_level2.hpp | 3 +++
 include/tlapack/lapack/unmr2.hpp       | 3 +++
 6 files changed, 21 insertions(+)

diff --git a/include/tlapack/lapack/unm2l.hpp b/include/tlapack/lapack/unm2l.hpp
index d5979c4..667957b 100644
--- a/include/tlapack/lapack/unm2l.hpp
+++ b/include/tlapack/lapack/unm2l.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unm2l_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if ((m <= 0) || (n <= 0) || (size(tau) <= 0)) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, BACKWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unm2r.hpp b/include/tlapack/lapack/unm2r.hpp
index 7c96fd4..4a29427 100644
--- a/include/tlapack/lapack/unm2r.hpp
+++ b/include/tlapack/lapack/unm2r.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unm2r_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if ((m <= 0) || (n <= 0) || (size(tau) <= 0)) return WorkInfo(0);
+
     auto&& v = slice(A, range{0, nA}, 0);
     return larf_worksize<T>(side, FORWARD, COLUMNWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unmhr.hpp b/include/tlapack/lapack/unmhr.hpp
index 0a0a5de..17dc757 100644
--- a/include/tlapack/lapack/unmhr.hpp
+++ b/include/tlapack/lapack/unmhr.hpp
@@ -59,6 +59,9 @@ constexpr WorkInfo unmhr_worksize(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // quick return
+    if (ihi <= ilo + 1) return WorkInfo(0);
+
     auto&& A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto&& tau_s = slice(tau, range{ilo, ihi - 1});
     auto&& C_s = (side == Side::Left)
@@ -92,6 +95,9 @@ int unmhr_work(Side side,
     using idx_t = size_type<matrix_t>;
     using range = pair<idx_t, idx_t>;
 
+    // quick return
+    if (ihi <= ilo + 1) return 0;
+
     auto A_s = slice(A, range{ilo + 1, ihi}, range{ilo, ihi - 1});
     auto tau_s = slice(tau, range{ilo, ihi - 1});
     auto C_s = (side == Side::Left)
diff --git a/include/tlapack/lapack/unml2.hpp b/include/tlapack/lapack/unml2.hpp
index e7238c7..91e82e3 100644
--- a/include/tlapack/lapack/unml2.hpp
+++ b/include/tlapack/lapack/unml2.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unml2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if ((m <= 0) || (n <= 0) || (size(tau) <= 0)) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, FORWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
diff --git a/include/tlapack/lapack/unmq_level2.hpp b/include/tlapack/lapack/unmq_level2.hpp
index ec34350..faa9597 100644
--- a/include/tlapack/lapack/unmq_level2.hpp
+++ b/include/tlapack/lapack/unmq_level2.hpp
@@ -82,6 +82,9 @@ constexpr WorkInfo unmq_level2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nQ = (side == Side::Left) ? m : n;
 
+    // quick return
+    if ((m <= 0) || (n <= 0) || (size(tau) <= 0)) return WorkInfo(0);
+
     if (storeMode == StoreV::Columnwise)
         return larf_worksize<T>(side, direction, storeMode,
                                 slice(V, range{0, nQ}, 0), tau[0], C);
diff --git a/include/tlapack/lapack/unmr2.hpp b/include/tlapack/lapack/unmr2.hpp
index d1818af..ef4987c 100644
--- a/include/tlapack/lapack/unmr2.hpp
+++ b/include/tlapack/lapack/unmr2.hpp
@@ -62,6 +62,9 @@ constexpr WorkInfo unmr2_worksize(side_t side,
     const idx_t n = ncols(C);
     const idx_t nA = (side == Side::Left) ? m : n;
 
+    // quick return
+    if ((m <= 0) || (n <= 0) || (size(tau) <= 0)) return WorkInfo(0);
+
     auto&& v = slice(A, 0, range{0, nA});
     return larf_worksize<T>(side, BACKWARD, ROWWISE_STORAGE, v, tau[0], C);
 }
-- 
2.43.0


From 615eed114d11cdd580f2f8a117be986e69e987dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 16/79] fix: gelqt: rows below the last block of a tall matrix
 were not transformed

---
 include/tlapack/lapack/gelqt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 943b309..1017eaa 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -86,7 +86,7 @@ int gelqt_work(matrix_t& A, matrix_t& TT, work_t& work)
         // . . . H(j+ib-1)
         larft(FORWARD, ROWWISE_STORAGE, A11, tauw1, TT1);
 
-        if (j + ib < k) {
+        if (j + ib < m) {
             // Apply H to A(j+ib:m,j:n) from the right
             auto A12 = slice(A, range(j + ib, m), range(j, n));
             auto work1 = slice(TT, range(j + ib, m), range(0, ib));
-- 
2.43.0


From 93ab9f4feefd74a7569167f9b17e8f83d6d3f7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 17/79] fix: ung*, geXX2 workspace queries: no reflectors (k =
 0) divided by zero or read tau[0]

---
 include/tlapack/lapack/gelq2.hpp       | 2 +-
 include/tlapack/lapack/geql2.hpp       | 2 +-
 include/tlapack/lapack/geqr2.hpp       | 2 +-
 include/tlapack/lapack/gerq2.hpp       | 2 +-
 include/tlapack/lapack/ung2l.hpp       | 2 +-
 include/tlapack/lapack/ung2r.hpp       | 2 +-
 include/tlapack/lapack/ungl2.hpp       | 2 +-
 include/tlapack/lapack/ungq.hpp        | 7 +++++++
 include/tlapack/lapack/ungq_level2.hpp | 4 ++--
 include/tlapack/lapack/ungr2.hpp       | 2 +-
 10 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/gelq2.hpp b/include/tlapack/lapack/gelq2.hpp
index 995959d..21be27f 100644
--- a/include/tlapack/lapack/gelq2.hpp
+++ b/include/tlapack/lapack/gelq2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo gelq2_worksize(const matrix_t& A, const vector_t& tauw)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tauw) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(A, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/geql2.hpp b/include/tlapack/lapack/geql2.hpp
index 85e3684..4f03d23 100644
--- a/include/tlapack/lapack/geql2.hpp
+++ b/include/tlapack/lapack/geql2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo geql2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/geqr2.hpp b/include/tlapack/lapack/geqr2.hpp
index 33da9e0..70cd102 100644
--- a/include/tlapack/lapack/geqr2.hpp
+++ b/include/tlapack/lapack/geqr2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo geqr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/gerq2.hpp b/include/tlapack/lapack/gerq2.hpp
index 2957910..d6aa533 100644
--- a/include/tlapack/lapack/gerq2.hpp
+++ b/include/tlapack/lapack/gerq2.hpp
@@ -37,7 +37,7 @@ constexpr WorkInfo gerq2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2l.hpp b/include/tlapack/lapack/ung2l.hpp
index 7995846..152e4ba 100644
--- a/include/tlapack/lapack/ung2l.hpp
+++ b/include/tlapack/lapack/ung2l.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2l_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, BACKWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ung2r.hpp b/include/tlapack/lapack/ung2r.hpp
index 3657fcd..646d2af 100644
--- a/include/tlapack/lapack/ung2r.hpp
+++ b/include/tlapack/lapack/ung2r.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ung2r_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t n = ncols(A);
 
-    if (n > 1) {
+    if (n > 1 && size(tau) > 0) {
         auto&& C = cols(A, range{1, n});
         return larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                 col(A, 0), tau[0], C);
diff --git a/include/tlapack/lapack/ungl2.hpp b/include/tlapack/lapack/ungl2.hpp
index 52681a1..3346734 100644
--- a/include/tlapack/lapack/ungl2.hpp
+++ b/include/tlapack/lapack/ungl2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungl2_worksize(const matrix_t& Q, const vector_t& tauw)
     // constants
     const idx_t k = nrows(Q);
 
-    if (k > 1) {
+    if (k > 1 && size(tauw) > 0) {
         auto&& C = rows(Q, range{1, k});
         return larf_worksize<T>(RIGHT_SIDE, FORWARD, ROWWISE_STORAGE, row(Q, 0),
                                 tauw[0], C);
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 304d7f5..859699b 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -72,6 +72,10 @@ constexpr WorkInfo ungq_worksize(direction_t direction,
     const idx_t k = size(tau);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // No reflectors
+    if (k == 0)
+        return ungq_level2_worksize<T>(direction, storeMode, A, tau);
+
     WorkInfo workinfo;
     auto&& V = (storeMode == StoreV::Columnwise)
                    ? slice(A, range{0, m}, range{0, nb})
@@ -164,6 +168,9 @@ int ungq_work(direction_t direction,
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
+    // No reflectors: Q consists of columns or rows of the identity matrix
+    if (k == 0) return ungq_level2_work(direction, storeMode, A, tau, work);
+
     // Matrix matrixT
     auto [matrixT, work1] =
         (min(m, n) > nb) ? reshape(work, nb, nb) : reshape(work, 0, 0);
diff --git a/include/tlapack/lapack/ungq_level2.hpp b/include/tlapack/lapack/ungq_level2.hpp
index 3b39478..e90142c 100644
--- a/include/tlapack/lapack/ungq_level2.hpp
+++ b/include/tlapack/lapack/ungq_level2.hpp
@@ -61,13 +61,13 @@ constexpr WorkInfo ungq_level2_worksize(direction_t direction,
     const idx_t n = ncols(A);
 
     if (storeMode == StoreV::Columnwise) {
-        return (n > 1)
+        return (n > 1 && size(tau) > 0)
                    ? larf_worksize<T>(LEFT_SIDE, direction, COLUMNWISE_STORAGE,
                                       col(A, 0), tau[0], cols(A, range{1, n}))
                    : WorkInfo(0);
     }
     else {
-        return (m > 1)
+        return (m > 1 && size(tau) > 0)
                    ? larf_worksize<T>(RIGHT_SIDE, direction, ROWWISE_STORAGE,
                                       row(A, 0), tau[0], rows(A, range{1, m}))
                    : WorkInfo(0);
diff --git a/include/tlapack/lapack/ungr2.hpp b/include/tlapack/lapack/ungr2.hpp
index 8a92e8f..b3df24b 100644
--- a/include/tlapack/lapack/ungr2.hpp
+++ b/include/tlapack/lapack/ungr2.hpp
@@ -38,7 +38,7 @@ constexpr WorkInfo ungr2_worksize(const matrix_t& A, const vector_t& tau)
     // constants
     const idx_t m = nrows(A);
 
-    if (m > 1) {
+    if (m > 1 && size(tau) > 0) {
         auto&& C = rows(A, range{1, m});
         return larf_worksize<T>(RIGHT_SIDE, BACKWARD, ROWWISE_STORAGE,
                                 row(A, 0), tau[0], C);
-- 
2.43.0


From d2820a4edffa027f3526d8909f3a8f19a0c88425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 18/79] fix: pttrf: real diagonal with complex off-diagonal
 compiles; getri: workspace query of UXLI compiles

---
 include/tlapack/lapack/getri.hpp | 2 +-
 include/tlapack/lapack/pttrf.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/getri.hpp b/include/tlapack/lapack/getri.hpp
index 3696427..ccd0b2b 100644
--- a/include/tlapack/lapack/getri.hpp
+++ b/include/tlapack/lapack/getri.hpp
@@ -49,7 +49,7 @@ constexpr WorkInfo getri_worksize(const matrix_t& A,
                                   const GetriOpts& opts = {})
 {
     if (opts.variant == GetriVariant::UXLI)
-        return getri_uxli_worksize<T>(A, opts);
+        return getri_uxli_worksize<T>(A);
 
     return WorkInfo(0);
 }
diff --git a/include/tlapack/lapack/pttrf.hpp b/include/tlapack/lapack/pttrf.hpp
index f49eead..ce43c3d 100644
--- a/include/tlapack/lapack/pttrf.hpp
+++ b/include/tlapack/lapack/pttrf.hpp
@@ -67,7 +67,7 @@ int pttrf(d_t& D, e_t& E, const EcOpts& opts = {})
                 " and the factorization could not be completed.");
             return i + 1;
         }
-        T Ei = E[i];
+        const type_t<e_t> Ei = E[i];
         E[i] = Ei / real(D[i]);
         D[i + 1] -= real(E[i] * conj(Ei));
     }
-- 
2.43.0


From 0b04755e4a543b3d2a0fea556981223de990318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 19/79] fix: getri_uxli: empty matrices

---
 include/tlapack/lapack/getri_uxli.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/getri_uxli.hpp b/include/tlapack/lapack/getri_uxli.hpp
index e778b59..b6118b8 100644
--- a/include/tlapack/lapack/getri_uxli.hpp
+++ b/include/tlapack/lapack/getri_uxli.hpp
@@ -29,7 +29,7 @@ template <class T, TLAPACK_SMATRIX matrix_t>
 constexpr WorkInfo getri_uxli_worksize(const matrix_t& A)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(ncols(A) - 1);
+        return WorkInfo((ncols(A) > 0) ? ncols(A) - 1 : 0);
     else
         return WorkInfo(0);
 }
@@ -55,6 +55,9 @@ int getri_uxli_work(matrix_t& A, work_t& work)
     // check arguments
     tlapack_check(nrows(A) == n);
 
+    // Quick return
+    if (n <= 0) return 0;
+
     // Vector W
     auto [W, work2] = reshape(work, n - 1);
 
-- 
2.43.0


From ccbafa19ab264514deb873327da269ccc85471f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 20/79] fix: pbtrf_with_workspace: blocks wider than the band

---
 .../tlapack/lapack/pbtrf_with_workspace.hpp   | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/pbtrf_with_workspace.hpp b/include/tlapack/lapack/pbtrf_with_workspace.hpp
index 07a0c00..47a7a0b 100644
--- a/include/tlapack/lapack/pbtrf_with_workspace.hpp
+++ b/include/tlapack/lapack/pbtrf_with_workspace.hpp
@@ -67,7 +67,8 @@ void pbtrf_with_workspace(uplo_t uplo,
 
     tlapack::Create<matrix_t> new_matrix;
 
-    const idx_t nb = opts.nb;
+    // blocks wider than the band would reach outside of it
+    const idx_t nb = min<idx_t>(opts.nb, max<idx_t>(kd, 1));
 
     idx_t n = nrows(A);
 
@@ -87,9 +88,13 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             if (i + ib < n) {
                 // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
+                idx_t i2 = (kd < ib) ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                idx_t i3 = (kd >= ib && n > i + kd)
+                               ? min<idx_t>(ib, n - i - kd)
+                               : 0;
 
                 if (i2 > 0) {
                     auto A01 = slice(A, range(i, ib + i),
@@ -160,9 +165,13 @@ void pbtrf_with_workspace(uplo_t uplo,
 
             if (i + ib <= n) {
                 // i2 = min(kd - ib, n - i - ib)
-                idx_t i2 = (kd + i < n) ? kd - ib : n - i - ib;
+                idx_t i2 = (kd < ib) ? 0
+                           : (kd + i < n) ? kd - ib
+                                          : n - i - ib;
                 // i3 = min(ib, n-i-kd)
-                idx_t i3 = (n > i + kd) ? min<idx_t>(ib, n - i - kd) : 0;
+                idx_t i3 = (kd >= ib && n > i + kd)
+                               ? min<idx_t>(ib, n - i - kd)
+                               : 0;
 
                 if (i2 > 0) {
                     auto A10 =
-- 
2.43.0


From 5d516d89d279e4c07fa75fe2516ccde5fd28e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 21/79] fix: hetrf_blocked: record and check the last 1-by-1
 block

---
 include/tlapack/lapack/hetrf_blocked.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 41517ad..62ce255 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -84,7 +84,12 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j -= step;
         }
-        ipiv[0] = min(0, ipiv[0]);
+        if (j == 1) {
+            // The last 1-by-1 block of D
+            ipiv[0] = 0;
+            if (Op::ConjTrans == opts.invariant) A(0, 0) = real(A(0, 0));
+            if (A(0, 0) == T(0) && info == 0) info = 1;
+        }
     }
     else if (uplo == Uplo::Lower) {
         int j = 0;
@@ -111,7 +116,13 @@ int hetrf_blocked_work(uplo_t uplo,
             }
             j += step;
         }
-        if (ipiv[n - 1] >= 0) ipiv[n - 1] = n - 1;
+        if (j == n - 1) {
+            // The last 1-by-1 block of D
+            ipiv[n - 1] = n - 1;
+            if (Op::ConjTrans == opts.invariant)
+                A(n - 1, n - 1) = real(A(n - 1, n - 1));
+            if (A(n - 1, n - 1) == T(0) && info == 0) info = n;
+        }
     }
     return info;
 }
-- 
2.43.0


From 05f76e812d7125f50b852d919c95e00eb4b4fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 22/79] fix: generalized_schur_swap: Q and Z are not referenced
 when not wanted

---
 .../tlapack/lapack/generalized_schur_swap.hpp | 44 +++++++++++--------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index 83e1b76..e4d7363 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -948,7 +948,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_q) {
             auto Q_slice = slice(Q, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Q_slice, QQ, StrongZero(T(0)),
@@ -974,7 +974,7 @@ int generalized_schur_swap(bool want_q,
                  work_slice);
             lacpy(GENERAL, work_slice, B_slice);
         }
-        {
+        if (want_z) {
             auto Z_slice = slice(Z, range(0, n), range(j0, j3 + 1));
             auto work_slice = slice(workr, range(0, n), range(0, 4));
             gemm(NO_TRANS, NO_TRANS, (T)1, Z_slice, ZZ, StrongZero(T(0)),
@@ -1029,9 +1029,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0, range(j2, n));
             auto b2 = slice(B, j1, range(j2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0);
-            auto q1 = col(Q, j1);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0);
+                auto q1 = col(Q, j1);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation and scaling
         {
@@ -1041,20 +1043,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0), j0);
             auto b2 = slice(B, range(0, j0), j1);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0);
-            auto z1 = col(Z, j1);
-            rot(z0, z1, cr, sr);
+            if (want_z) {
+                auto z0 = col(Z, j0);
+                auto z1 = col(Z, j1);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
+            }
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
             }
         }
     }
@@ -1091,9 +1095,11 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, j0 + n2, range(j2 + n2, n));
             auto b2 = slice(B, j1 + n2, range(j2 + n2, n));
             rot(b1, b2, cl, sl);
-            auto q0 = col(Q, j0 + n2);
-            auto q1 = col(Q, j1 + n2);
-            rot(q0, q1, cl, sl);
+            if (want_q) {
+                auto q0 = col(Q, j0 + n2);
+                auto q1 = col(Q, j1 + n2);
+                rot(q0, q1, cl, sl);
+            }
         }
         // Apply right rotation
         {
@@ -1103,20 +1109,22 @@ int generalized_schur_swap(bool want_q,
             auto b1 = slice(B, range(0, j0 + n2), j0 + n2);
             auto b2 = slice(B, range(0, j0 + n2), j1 + n2);
             rot(b1, b2, cr, sr);
-            auto z0 = col(Z, j0 + n2);
-            auto z1 = col(Z, j1 + n2);
-            rot(z0, z1, cr, sr);
+            if (want_z) {
+                auto z0 = col(Z, j0 + n2);
+                auto z1 = col(Z, j1 + n2);
+                rot(z0, z1, cr, sr);
+                if (scal0 != (T)1) scal(scal0, z0);
+                if (scal1 != (T)1) scal(scal1, z1);
+            }
 
             if (scal0 != (T)1) {
                 scal(scal0, a1);
                 scal(scal0, b1);
-                scal(scal0, z0);
             }
 
             if (scal1 != (T)1) {
                 scal(scal1, a2);
                 scal(scal1, b2);
-                scal(scal1, z1);
             }
         }
     }
-- 
2.43.0


From 8da134a0fd1eef0c2583671e7e2958c0cc1f131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 23/79] fix: lahqr_schur22: the sign of zero made the
 standardisation rotation non-orthogonal

---
 include/tlapack/lapack/lahqr_schur22.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index f2431bd..67814ae 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -92,7 +92,7 @@ void lahqr_schur22(T& a,
             // Real eigenvalues.
 
             // Compute a and d.
-            z = p + T(sgn(p)) * sqrt(scale) * sqrt(z);
+            z = p + T((p < zero) ? -1 : 1) * sqrt(scale) * sqrt(z);
             a = d + z;
             d = d - (bcmax / z) * bcmin;
             // Compute b and the rotation matrix
@@ -124,7 +124,7 @@ void lahqr_schur22(T& a,
             p = half * temp;
             T tau = lapy2(sigma, temp);
             cs = sqrt(half * (one + abs(sigma) / tau));
-            sn = -(p / (tau * cs)) * T(sgn(sigma));
+            sn = -(p / (tau * cs)) * T((sigma < zero) ? -1 : 1);
             //
             // Compute [aa bb] = [a b][cs -sn]
             //         [cc dd] = [c d][sn  cs]
-- 
2.43.0


From 6eb63c1c2cea349863edd2e24be18a0b76bd2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 24/79] fix: steqr: sign of a zero shift denominator gave NaN;
 failure to converge is reported

---
 include/tlapack/lapack/steqr.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/steqr.hpp b/include/tlapack/lapack/steqr.hpp
index 087f5bb..ab186bc 100644
--- a/include/tlapack/lapack/steqr.hpp
+++ b/include/tlapack/lapack/steqr.hpp
@@ -112,17 +112,17 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
     bool forwarddirection = true;
 
     // Main loop
-    for (idx_t iter = 0; iter < itmax; iter++) {
-        if (iter == itmax) {
-            // The QR algorithm failed to converge, return with error.
-            return istop;
-        }
-
+    for (idx_t iter = 0; iter <= itmax; iter++) {
         if (istop <= 1) {
             // All eigenvalues have been found, exit and return 0.
             break;
         }
 
+        if (iter == itmax) {
+            // The QR algorithm failed to converge, return with error.
+            return istop;
+        }
+
         // Find active block
         for (idx_t i = istop - 1; i > istart; --i) {
             if (square(e[i - 1]) <=
@@ -177,7 +177,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istop - 1];
             real_t g = (d[istop - 2] - p) / (two * e[istop - 2]);
             real_t r = lapy2(g, one);
-            g = d[istart] - p + e[istop - 2] / (real_t)(g + (sgn(g) * r));
+            g = d[istart] - p + e[istop - 2] / (real_t)(g + ((g < zero) ? -r : r));
 
             real_t s = one;
             real_t c = one;
@@ -211,7 +211,7 @@ int steqr(bool want_z, d_t& d, e_t& e, matrix_t& Z)
             real_t p = d[istart];
             real_t g = (d[istart + 1] - p) / (two * e[istart]);
             real_t r = lapy2(g, one);
-            g = d[istop - 1] - p + e[istart] / (real_t)(g + (sgn(g) * r));
+            g = d[istop - 1] - p + e[istart] / (real_t)(g + ((g < zero) ? -r : r));
 
             real_t s = one;
             real_t c = one;
-- 
2.43.0


From cf18294231878b24b57ea263637a0add2f98faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 25/79] fix: ungbr_q, ungbr_p: empty matrices (gesvd of an
 empty matrix failed)

---
 include/tlapack/lapack/ungbr.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/tlapack/lapack/ungbr.hpp b/include/tlapack/lapack/ungbr.hpp
index 642ee29..3f09edc 100644
--- a/include/tlapack/lapack/ungbr.hpp
+++ b/include/tlapack/lapack/ungbr.hpp
@@ -56,6 +56,9 @@ constexpr WorkInfo ungbr_q_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return WorkInfo(0);
+
     if (m >= k) {
         return ungq_worksize<T>(FORWARD, COLUMNWISE_STORAGE, A, tau,
                                 UngqOpts{opts.nb});
@@ -100,6 +103,9 @@ constexpr WorkInfo ungbr_p_worksize(const size_type<matrix_t> k,
     // constants
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return WorkInfo(0);
+
     if (n <= k) {
         auto&& A2 = slice(A, range{0, n - 1}, range{0, n - 1});
         auto&& tau2 = slice(tau, range{0, n - 1});
@@ -139,6 +145,9 @@ int ungbr_q_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t m = nrows(A);
 
+    // quick return
+    if (m == 0) return 0;
+
     if (m >= k) {
         // If m >= k, assume m >= n >= k
         ungq_work(FORWARD, COLUMNWISE_STORAGE, A, tau, work, UngqOpts{opts.nb});
@@ -244,6 +253,9 @@ int ungbr_p_work(const size_type<matrix_t> k,
     const real_t one(1);
     const idx_t n = ncols(A);
 
+    // quick return
+    if (n == 0) return 0;
+
     //
     // Form P**H, determined by a call to gebrd to reduce a k-by-n
     // matrix
-- 
2.43.0


From d36bc95b08d1c62a7baf07c77a36c68e447dc8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 26/79] fix: gehd2, hetd2: empty matrices and empty ranges
 (unsigned n - 1, ihi - 1)

---
 include/tlapack/lapack/gehd2.hpp | 6 +++---
 include/tlapack/lapack/hetd2.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index ef47ef2..1ec3486 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -87,12 +87,12 @@ int gehd2_work(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
 
-    for (idx_t i = ilo; i < ihi - 1; ++i) {
+    for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
 
@@ -166,7 +166,7 @@ int gehd2(size_type<matrix_t> ilo,
 
     // check arguments
     tlapack_check_false(ncols(A) != nrows(A));
-    tlapack_check_false((idx_t)size(tau) < n - 1);
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
 
     // quick return
     if (n <= 0) return 0;
diff --git a/include/tlapack/lapack/hetd2.hpp b/include/tlapack/lapack/hetd2.hpp
index 76892a7..b89bb0c 100644
--- a/include/tlapack/lapack/hetd2.hpp
+++ b/include/tlapack/lapack/hetd2.hpp
@@ -60,7 +60,7 @@ int hetd2(uplo_t uplo, A_t& A, tau_t& tau)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
     tlapack_check(nrows(A) == ncols(A));
-    tlapack_check((idx_t)size(tau) >= n - 1);
+    tlapack_check((idx_t)size(tau) + 1 >= n);
 
     // quick return
     if (n <= 0) return 0;
-- 
2.43.0


From 3330c9fb9b39396982ca95ff0d02bd8bd4580625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 27/79] fix: gehrd: tau has n-1 entries, empty ranges

---
 include/tlapack/lapack/gehrd.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 8a9ce5d..c3c29bc 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -119,15 +119,15 @@ int gehrd_work(size_type<matrix_t> ilo,
     // Size of the last block which be handled with unblocked code
     const idx_t nx = max(nb, (idx_t)opts.nx_switch);
 
+    // quick return
+    if (n <= 0) return 0;
+
     // check arguments
     tlapack_check_false((ilo < 0) or (ilo >= n));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
     tlapack_check_false((idx_t)size(tau) < n - 1);
 
-    // quick return
-    if (n <= 0) return 0;
-
     // Matrices Y and T
     auto [Y, work2] = ((ilo < ihi) && (nx < ihi - ilo - 1))
                           ? reshape(work, n, nb)
@@ -139,12 +139,12 @@ int gehrd_work(size_type<matrix_t> ilo,
     laset(GENERAL, zero, zero, Y);
 
     idx_t i = ilo;
-    for (; i + nx < ihi - 1; i = i + nb) {
+    for (; i + nx + 1 < ihi; i = i + nb) {
         const idx_t nb2 = min(nb, ihi - i - 1);
 
         auto V = slice(A, range{i + 1, ihi}, range{i, i + nb2});
         auto A2 = slice(A, range{0, ihi}, range{i, ihi});
-        auto tau2 = slice(tau, range{i, ihi});
+        auto tau2 = slice(tau, range{i, ihi - 1});
         auto T_s = slice(matrixT, range{0, nb2}, range{0, nb2});
         auto Y_s = slice(Y, range{0, n}, range{0, nb2});
         lahr2(i, nb2, A2, tau2, T_s, Y_s);
-- 
2.43.0


From d51a42611e1265602096b5a2acbc984096ccb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 28/79] fix: unghr: empty matrix and empty range

---
 include/tlapack/lapack/unghr.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/unghr.hpp b/include/tlapack/lapack/unghr.hpp
index b1d0b17..156650d 100644
--- a/include/tlapack/lapack/unghr.hpp
+++ b/include/tlapack/lapack/unghr.hpp
@@ -87,13 +87,16 @@ int unghr_work(size_type<matrix_t> ilo,
     // check arguments
     tlapack_check_false((idx_t)size(tau) + 1 < min(m, n));
 
+    // quick return
+    if (n == 0) return 0;
+
     // Shift the vectors which define the elementary reflectors one
     // column to the right, and set the first ilo and the last n-ihi
     // rows and columns to those of the unit matrix
 
     // This is currently optimised for column matrices, it may be interesting
     // to also write these loops for row matrices
-    for (idx_t j = ihi - 1; j > ilo; --j) {
+    for (idx_t j = ihi; j-- > ilo + 1;) {
         for (idx_t i = 0; i < j; ++i) {
             A(i, j) = zero;
         }
-- 
2.43.0


From 62999d83c39e36d3f10100fbbaa2cae65d8fc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:11 +0000
Subject: [PATCH 29/79] fix: gghd3: Q and Z are not updated when not wanted

---
 include/tlapack/lapack/gghd3.hpp | 44 +++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/tlapack/lapack/gghd3.hpp b/include/tlapack/lapack/gghd3.hpp
index a7cb39a..3ed664d 100644
--- a/include/tlapack/lapack/gghd3.hpp
+++ b/include/tlapack/lapack/gghd3.hpp
@@ -184,10 +184,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 = cols(Q, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(Q, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -218,11 +220,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, C3, B2);
             }
 
-            auto Q2 =
-                cols(Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
-            lacpy(GENERAL, D2, Q2);
+            if (wantq) {
+                auto Q2 = cols(
+                    Q, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Q2, Qt2, D2);
+                lacpy(GENERAL, D2, Q2);
+            }
         }
 
         //
@@ -254,10 +258,12 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 = cols(Z, range(ihi - nblst, ihi));
-            auto D2 = cols(D, range(0, nblst));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(Z, range(ihi - nblst, ihi));
+                auto D2 = cols(D, range(0, nblst));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
         for (idx_t ib = n2nb - 1; ib != (idx_t)-1; ib--) {
             auto Qt2 = slice(Qt, range(0, 2 * nnb), range(0, 2 * nnb));
@@ -287,11 +293,13 @@ int gghd3(bool wantq,
                 lacpy(GENERAL, D2, B2);
             }
 
-            auto Z2 =
-                cols(Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
-            auto D2 = cols(D, range(0, 2 * nnb));
-            gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
-            lacpy(GENERAL, D2, Z2);
+            if (wantz) {
+                auto Z2 = cols(
+                    Z, range(j + 1 + nnb * ib, j + 1 + nnb * ib + 2 * nnb));
+                auto D2 = cols(D, range(0, 2 * nnb));
+                gemm(NO_TRANS, NO_TRANS, (T)1, Z2, Qt2, D2);
+                lacpy(GENERAL, D2, Z2);
+            }
         }
     }
 
-- 
2.43.0


From 78a526e937a0210f52a30912528e7919c43096b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 30/79] fix: gebd2_worksize: no columns of a matrix without
 rows

---
 include/tlapack/lapack/gebd2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gebd2.hpp b/include/tlapack/lapack/gebd2.hpp
index ad4fb98..90665aa 100644
--- a/include/tlapack/lapack/gebd2.hpp
+++ b/include/tlapack/lapack/gebd2.hpp
@@ -45,7 +45,7 @@ constexpr WorkInfo gebd2_worksize(const matrix_t& A,
     const idx_t n = ncols(A);
 
     WorkInfo workinfo;
-    if (n > 1) {
+    if (n > 1 && m > 0) {
         auto&& A11 = cols(A, range{1, n});
         workinfo = larf_worksize<T>(LEFT_SIDE, FORWARD, COLUMNWISE_STORAGE,
                                     col(A, 0), tauv[0], A11);
-- 
2.43.0


From b7ebd6a4d8c0b284f55310b50e0d87cc3f9f7d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 31/79] fix: hessenberg_rq: empty matrix

---
 include/tlapack/lapack/hessenberg_rq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/hessenberg_rq.hpp b/include/tlapack/lapack/hessenberg_rq.hpp
index b326709..6f84ca4 100644
--- a/include/tlapack/lapack/hessenberg_rq.hpp
+++ b/include/tlapack/lapack/hessenberg_rq.hpp
@@ -54,7 +54,7 @@ inline void hessenberg_rq(T_t& T, CL_t& cl, SL_t& sl, CR_t& cr, SR_t& sr)
 
     // constants
     const idx_t n = ncols(T);
-    const idx_t k = n - 1;
+    const idx_t k = (n > 0) ? n - 1 : 0;
 
     // quick return
     if (k < 1) return;
-- 
2.43.0


From bb5de1b59d477848ed5c6940e520fc36208d23aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:11 +0000
Subject: [PATCH 32/79] fix: lahqr: the deflation test read below the last row
 of the active block

---
 include/tlapack/lapack/lahqr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqr.hpp b/include/tlapack/lapack/lahqr.hpp
index c65af46..f38f4e0 100644
--- a/include/tlapack/lapack/lahqr.hpp
+++ b/include/tlapack/lapack/lahqr.hpp
@@ -170,7 +170,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
@@ -505,7 +505,7 @@ int lahqr(bool want_t,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From 9cf771c3bd2ac1ccbd0958f1c364492709d09b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 33/79] fix: multishift_qr: number and origin of the shifts
 (uncopied block, Z referenced when not wanted, indices outside of the active
 block)

---
 include/tlapack/lapack/multishift_qr.hpp | 62 +++++++++++++++---------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qr.hpp b/include/tlapack/lapack/multishift_qr.hpp
index a55cb43..7193f43 100644
--- a/include/tlapack/lapack/multishift_qr.hpp
+++ b/include/tlapack/lapack/multishift_qr.hpp
@@ -37,7 +37,8 @@ constexpr WorkInfo multishift_qr_worksize_sweep(bool want_t,
 
     const idx_t n = ncols(A);
     const idx_t nh = ihi - ilo;
-    const idx_t nsr = opts.nshift_recommender(n, nh);
+    const idx_t nsr =
+        min<idx_t>(n, max<idx_t>(2, opts.nshift_recommender(n, nh)));
     auto&& shifts = slice(w, range{0, nsr});
 
     return multishift_QR_sweep_worksize<T>(want_t, want_z, ilo, ihi, A, shifts,
@@ -139,14 +140,7 @@ int multishift_qr_work(bool want_t,
     // This routine uses the space below the subdiagonal as workspace
     // For small matrices, this is not enough
     // if n < nmin, the matrix will be passed to lahqr
-    const idx_t nmin = opts.nmin;
-
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
-
-    // Recommended deflation window size
-    const idx_t nwr = opts.deflation_window_recommender(n, nh);
-    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nmin = max<idx_t>(12, opts.nmin);
 
     const idx_t nibble = opts.nibble;
 
@@ -170,6 +164,17 @@ int multishift_qr_work(bool want_t,
         return lahqr(want_t, want_z, ilo, ihi, A, w, Z);
     }
 
+    // Recommended number of shifts, must be even and fit in the workspace
+    idx_t nsr = min<idx_t>(opts.nshift_recommender(n, nh), (n - 3) / 6);
+    nsr = min<idx_t>(nsr, nh - 1);
+    nsr = max<idx_t>(2, nsr - nsr % 2);
+
+    // Recommended deflation window size
+    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nwr =
+        max<idx_t>(2, min<idx_t>(opts.deflation_window_recommender(n, nh),
+                                 min<idx_t>(nh, nw_max)));
+
     // itmax is the total number of QR iterations allowed.
     // For most matrices, 3 shifts per eigenvalue is enough, so
     // we set itmax to 30 times nh as a safe limit.
@@ -257,16 +262,20 @@ int multishift_qr_work(bool want_t,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+
+        // Number of shifts, at most the size of the active block
+        nh = istop - istart;
+        idx_t ns = min(nsr, max<idx_t>(2, nh - 1));
+        ns = ns - ns % 2;
 
         idx_t i_shifts = istop - ls;
 
         if (k_defl % non_convergence_limit_shift == 0) {
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
-                real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
-                TA aa = dat1 * ss + A(i, i);
+            i_shifts = istop - ns;
+            for (idx_t i = i_shifts; i + 1 < istop; i = i + 2) {
+                real_t ss = abs1(A(i + 1, i));
+                if (i > istart) ss += abs1(A(i, i - 1));
+                TA aa = dat1 * ss + A(i + 1, i + 1);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
@@ -274,15 +283,19 @@ int multishift_qr_work(bool want_t,
             }
         }
         else {
-            if (ls < nsr / 2) {
-                // Got nsr/2 or fewer shifts? Then use multi/double shift qr to
-                // get more
-                auto temp = slice(A, range{n - nsr, n}, range{0, nsr});
-                auto shifts = slice(w, range{istop - nsr, istop});
-                auto Z_slice = slice(Z, range{0, nsr}, range{0, nsr});
-                int ierr = lahqr(false, false, 0, nsr, temp, shifts, Z_slice);
-
-                ns = nsr - ierr;
+            if (ls <= ns / 2) {
+                // Got ns/2 or fewer shifts? Then use multi/double shift qr on
+                // a copy of the trailing block to get more
+                auto temp = slice(A, range{n - ns, n}, range{0, ns});
+                auto shifts = slice(w, range{istop - ns, istop});
+                auto Z_slice = slice(Z, range{0, 0}, range{0, 0});
+                laset(LOWER_TRIANGLE, zero, zero, temp);
+                for (idx_t j = 0; j < ns; ++j)
+                    for (idx_t i = 0; i < min(j + 2, ns); ++i)
+                        temp(i, j) = A(istop - ns + i, istop - ns + j);
+                int ierr = lahqr(false, false, 0, ns, temp, shifts, Z_slice);
+
+                ns = ns - ierr;
 
                 if (ns < 2) {
                     // In case of a rare QR failure, use eigenvalues
@@ -331,6 +344,7 @@ int multishift_qr_work(bool want_t,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
+            ns = min(ns, istop - i_shifts);
             if (ns % 2 == 1) ns = ns - 1;
             i_shifts = istop - ns;
         }
-- 
2.43.0


From 90e8c33ec77e06c48fb5b1877423ec44d3eae82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 34/79] fix: aggressive_early_deflation_worksize: whole-block
 windows shrink later, the Hessenberg reduction needs workspace

---
 .../tlapack/lapack/aggressive_early_deflation.hpp   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/lapack/aggressive_early_deflation.hpp b/include/tlapack/lapack/aggressive_early_deflation.hpp
index 1d342e4..a4f0f23 100644
--- a/include/tlapack/lapack/aggressive_early_deflation.hpp
+++ b/include/tlapack/lapack/aggressive_early_deflation.hpp
@@ -64,14 +64,11 @@ namespace internal {
         const idx_t nw_max = (n - 3) / 3;
         const idx_t jw = min(min(nw, ihi - ilo), nw_max);
 
-        if (jw != ihi - ilo) {
-            // Hessenberg reduction
-            auto&& TW = slice(A, range{0, jw}, range{0, jw});
-            auto&& tau = slice(A, range{0, jw}, 0);
-            return gehrd_worksize<T>(0, jw, TW, tau);
-        }
-        else
-            return WorkInfo();
+        // Hessenberg reduction. Also needed if the window is the whole active
+        // block: multishift_qr() uses the same workspace for smaller windows.
+        auto&& TW = slice(A, range{0, jw}, range{0, jw});
+        auto&& tau = slice(A, range{0, jw}, 0);
+        return gehrd_worksize<T>(0, jw, TW, tau);
     }
 }  // namespace internal
 
-- 
2.43.0


From adc58e5074ce358fc6947c71bb441088989c97b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:32 +0000
Subject: [PATCH 35/79] fix: lahqr_schur22: a lower triangular block was left
 after equalizing the diagonal

---
 include/tlapack/lapack/lahqr_schur22.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/tlapack/lapack/lahqr_schur22.hpp b/include/tlapack/lapack/lahqr_schur22.hpp
index 67814ae..0bfea4f 100644
--- a/include/tlapack/lapack/lahqr_schur22.hpp
+++ b/include/tlapack/lapack/lahqr_schur22.hpp
@@ -165,6 +165,14 @@ void lahqr_schur22(T& a,
                         cs = temp;
                     }
                 }
+                else {
+                    // Lower triangular: swap rows and columns
+                    b = -c;
+                    c = zero;
+                    temp = cs;
+                    cs = -sn;
+                    sn = temp;
+                }
             }
         }
     }
-- 
2.43.0


From c1d203f7456fcb4a750b76aa4a78fb090a0f71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:19 +0000
Subject: [PATCH 36/79] fix: move_bulge: the fill-in of a reintroduced bulge
 was computed without the factor tau

---
 include/tlapack/lapack/move_bulge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/move_bulge.hpp b/include/tlapack/lapack/move_bulge.hpp
index 5a6385d..461b94d 100644
--- a/include/tlapack/lapack/move_bulge.hpp
+++ b/include/tlapack/lapack/move_bulge.hpp
@@ -82,7 +82,7 @@ void move_bulge(matrix_t& H,
         larfg(FORWARD, COLUMNWISE_STORAGE, vt, tau);
         vt[0] = tau;
 
-        refsum = conj(vt[0]) * H(1, 0) + conj(vt[1]) * H(2, 0);
+        refsum = conj(vt[0]) * (H(1, 0) + conj(vt[1]) * H(2, 0));
         if (abs1(H(2, 0) - refsum * vt[1]) + abs1(refsum * vt[2]) >
             eps * (abs1(H(0, 0)) + abs1(H(1, 1)) + abs1(H(2, 2)))) {
             // Starting a new bulge here would create non-negligible fill. Use
-- 
2.43.0


From 36738b9ee042978f8f8a5b0da42a3c352cde9485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 37/79] fix: inv_house3: kernel vector of a singular block

---
 include/tlapack/lapack/inv_house3.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/inv_house3.hpp b/include/tlapack/lapack/inv_house3.hpp
index 304cea9..83d373c 100644
--- a/include/tlapack/lapack/inv_house3.hpp
+++ b/include/tlapack/lapack/inv_house3.hpp
@@ -98,8 +98,9 @@ void inv_house3(const matrix_t& A, vector_t& v, type_t<vector_t>& tau)
     real_t scale = (real_t)1;
     if (abs1(u22) < safemin) {
         v[0] = (T)0;
-        v[1] = (T)1;
-        v[2] = -u12 / u11;
+        v[1] = -u12 / u11;
+        v[2] = (T)1;
+        if (colswapped) std::swap(v[1], v[2]);
         larfg(FORWARD, COLUMNWISE_STORAGE, v, tau);
         return;
     }
-- 
2.43.0


From 69fef109b8addff363c46aedf681c51d83a60b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 38/79] fix: multishift_QZ_sweep: the last rotation is part of
 the update of A and B even if Z is not wanted

---
 include/tlapack/lapack/multishift_qz_sweep.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz_sweep.hpp b/include/tlapack/lapack/multishift_qz_sweep.hpp
index 3fceb60..ff64d41 100644
--- a/include/tlapack/lapack/multishift_qz_sweep.hpp
+++ b/include/tlapack/lapack/multishift_qz_sweep.hpp
@@ -654,11 +654,9 @@ void multishift_QZ_sweep(bool want_t,
                         auto a1 = col(A2, i);
                         auto a2 = col(A2, i + 1);
                         rot(a1, a2, c2, conj(s2));
-                        if (want_z) {
-                            auto z1 = col(Zc2, i);
-                            auto z2 = col(Zc2, i + 1);
-                            rot(z1, z2, c2, conj(s2));
-                        }
+                        auto z1 = col(Zc2, i);
+                        auto z2 = col(Zc2, i + 1);
+                        rot(z1, z2, c2, conj(s2));
                     }
                 }
 
-- 
2.43.0


From f9f6ea740a01a90cd82369ea1c222dcafff34464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 39/79] fix: lahqz_shiftcolumn: scale factors that were not
 applied (0/0)

---
 include/tlapack/lapack/lahqz_shiftcolumn.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/lahqz_shiftcolumn.hpp b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
index c150c4d..5c4a824 100644
--- a/include/tlapack/lapack/lahqz_shiftcolumn.hpp
+++ b/include/tlapack/lapack/lahqz_shiftcolumn.hpp
@@ -92,6 +92,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale1;
             w2 = w2 / scale1;
         }
+        else
+            scale1 = real_t(1);
         // Solve linear system
         w2 = w2 / B(1, 1);
         w1 = (w1 - B(0, 1) * w2) / B(0, 0);
@@ -100,6 +102,8 @@ int lahqz_shiftcolumn(const matrix_t& A,
             w1 = w1 / scale2;
             w2 = w2 / scale2;
         }
+        else
+            scale2 = real_t(1);
         // Apply second shift
         v[0] = beta2 * (A(0, 0) * w1 + A(0, 1) * w2) -
                real(s2) * (B(0, 0) * w1 + B(0, 1) * w2);
-- 
2.43.0


From acc202fee48ce033d4dc699abcd187d3c14c66d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 40/79] fix: lahqz_eig22: complex pencils, double eigenvalue
 (0/0), scaled discriminant, smaller eigenvalue

---
 include/tlapack/lapack/lahqz_eig22.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lahqz_eig22.hpp b/include/tlapack/lapack/lahqz_eig22.hpp
index 311ce78..ea425ad 100644
--- a/include/tlapack/lapack/lahqz_eig22.hpp
+++ b/include/tlapack/lapack/lahqz_eig22.hpp
@@ -208,6 +208,11 @@ void lahqz_eig22(const A_t& A,
 
     if constexpr (is_complex<TA>) {
         TA root = sqrt(discr);
+        // Undo the scaling of discr
+        if (abs1(pp * rtmin) >= one)
+            root = root * rtmax;
+        else if (abs1(pp * pp) + abs1(qq) <= safmin)
+            root = root * rtmin;
 
         TA mu_big;
         if (abs1(pp + root) > abs1(pp - root)) {
@@ -216,9 +221,15 @@ void lahqz_eig22(const A_t& A,
         else {
             mu_big = pp - root;
         }
-        TA mu_small = -qq / mu_big;
+        TA mu_small = (mu_big == TA(0)) ? TA(0) : -qq / mu_big;
         alpha1 = shift + mu_big;
         alpha2 = shift + mu_small;
+        // Compute smaller eigenvalue from the determinant
+        const TA wdet = (a00 * a11 - a01 * a10) * (binv00 * binv11);
+        if (half * abs1(alpha1) > max<real_t>(abs1(alpha2), safmin))
+            alpha2 = wdet / alpha1;
+        else if (half * abs1(alpha2) > max<real_t>(abs1(alpha1), safmin))
+            alpha1 = wdet / alpha2;
     }
     else {
         //
-- 
2.43.0


From 9ed7c9ac2d085549d84c97259a53d2ea4843e972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 41/79] fix: lahqz, multishift_qz: the deflation test read
 below the last row of the active block

---
 include/tlapack/lapack/lahqz.hpp         | 2 +-
 include/tlapack/lapack/multishift_qz.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 3176bb8..7a6854f 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -182,7 +182,7 @@ int lahqz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 15c5d91..88d4ad7 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -204,7 +204,7 @@ int multishift_qz(bool want_s,
                 if (i >= ilo + 2) {
                     tst = tst + abs(A(i - 1, i - 2));
                 }
-                if (i < ihi) {
+                if (i + 1 < ihi) {
                     tst = tst + abs(A(i + 1, i));
                 }
             }
-- 
2.43.0


From d297add308835c3dd2015b9251713078617f3c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 42/79] fix: lahqz, multishift_qz: a positive diagonal entry of
 a complex B was replaced by zero

---
 include/tlapack/lapack/lahqz.hpp         | 2 +-
 include/tlapack/lapack/multishift_qz.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 7a6854f..2f52147 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -328,7 +328,7 @@ int lahqz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
+                else if (absB <= small_num) {
                     B(istart, istart) = zero;
                 }
             }
diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 88d4ad7..54032d1 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -350,7 +350,7 @@ int multishift_qz(bool want_s,
                     }
                     B(istart, istart) = absB;
                 }
-                else {
+                else if (absB <= small_num) {
                     B(istart, istart) = zero;
                 }
             }
-- 
2.43.0


From f183ce392ff191a353169b3263d222de91282f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 43/79] fix: lahqz: exceptional shift (operator precedence,
 subdiagonal entry)

---
 include/tlapack/lapack/lahqz.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/lahqz.hpp b/include/tlapack/lapack/lahqz.hpp
index 2f52147..9f124e1 100644
--- a/include/tlapack/lapack/lahqz.hpp
+++ b/include/tlapack/lapack/lahqz.hpp
@@ -416,10 +416,10 @@ int lahqz(bool want_s,
         TA beta2;
         if (k_defl % non_convergence_limit == 0) {
             // Exceptional shift
-            if (k_defl % 2 * non_convergence_limit == 0 or istop < 2)
+            if (k_defl % (2 * non_convergence_limit) == 0)
                 eshift += A(istop - 1, istop - 1) / B(istop - 1, istop - 1);
             else
-                eshift += A(istop - 2, istop - 2) / B(istop - 2, istop - 2);
+                eshift += A(istop - 1, istop - 2) / B(istop - 2, istop - 2);
 
             shift1 = eshift;
             shift2 = eshift;
-- 
2.43.0


From fabd7884637921331c9d40ebeec81494d2caeccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:44 +0000
Subject: [PATCH 44/79] fix: multishift_qz: number and origin of the shifts,
 window size

---
 include/tlapack/lapack/multishift_qz.hpp | 40 +++++++++++++++---------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/tlapack/lapack/multishift_qz.hpp b/include/tlapack/lapack/multishift_qz.hpp
index 54032d1..01b1fea 100644
--- a/include/tlapack/lapack/multishift_qz.hpp
+++ b/include/tlapack/lapack/multishift_qz.hpp
@@ -92,14 +92,7 @@ int multishift_qz(bool want_s,
     // This routine uses the space below the subdiagonal as workspace
     // For small matrices, this is not enough
     // if n < nmin, the matrix will be passed to lahqr
-    const idx_t nmin = opts.nmin;
-
-    // Recommended number of shifts
-    const idx_t nsr = opts.nshift_recommender(n, nh);
-
-    // Recommended deflation window size
-    const idx_t nwr = opts.deflation_window_recommender(n, nh);
-    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nmin = max<idx_t>(12, opts.nmin);
 
     const idx_t nibble = opts.nibble;
 
@@ -135,6 +128,17 @@ int multishift_qz(bool want_s,
         return lahqz(want_s, want_q, want_z, ilo, ihi, A, B, alpha, beta, Q, Z);
     }
 
+    // Recommended number of shifts, must be even and fit in the workspace
+    idx_t nsr = min<idx_t>(opts.nshift_recommender(n, nh), (n - 3) / 6);
+    nsr = min<idx_t>(nsr, nh - 1);
+    nsr = max<idx_t>(2, nsr - nsr % 2);
+
+    // Recommended deflation window size
+    const idx_t nw_max = (n - 3) / 3;
+    const idx_t nwr =
+        max<idx_t>(2, min<idx_t>(opts.deflation_window_recommender(n, nh),
+                                 min<idx_t>(nh, nw_max)));
+
     // itmax is the total number of QR iterations allowed.
     // For most matrices, 3 shifts per eigenvalue is enough, so
     // we set itmax to 30 times nh as a safe limit.
@@ -474,18 +478,25 @@ int multishift_qz(bool want_s,
         }
 
         k_defl = k_defl + 1;
-        idx_t ns = min(nh - 1, min(ls, nsr));
+
+        // Number of shifts, at most the size of the active block
+        nh = istop - istart;
+        idx_t ns = min(nsr, max<idx_t>(2, nh - 1));
+        ns = ns - ns % 2;
 
         idx_t i_shifts = istop - ls;
 
+        // If less than two shifts are left, a new window will provide some
+        if (nh < 2 or ls < 2) continue;
+
         if (k_defl % non_convergence_limit_shift == 0) {
             // This exceptional shift closely resembles the QR exceptional shift
             // This is nice for easy maintenance, but is not guaranteed to work.
-            ns = nsr;
-            for (idx_t i = i_shifts; i < istop - 1; i = i + 2) {
-                real_t ss = abs1(A(i, i - 1));
-                if (i > 1) ss += abs1(A(i - 1, i - 2));
-                TA aa = dat1 * ss + A(i, i);
+            i_shifts = istop - ns;
+            for (idx_t i = i_shifts; i + 1 < istop; i = i + 2) {
+                real_t ss = abs1(A(i + 1, i));
+                if (i > istart) ss += abs1(A(i, i - 1));
+                TA aa = dat1 * ss + A(i + 1, i + 1);
                 TA bb = ss;
                 TA cc = dat2 * ss;
                 TA dd = aa;
@@ -536,6 +547,7 @@ int multishift_qz(bool want_s,
 
             // Since we shuffled the shifts, we will only drop
             // Real shifts
+            ns = min(ns, ls);
             if (ns % 2 == 1) ns = ns - 1;
             i_shifts = istop - ns;
         }
-- 
2.43.0


From 4ededfbac55ed07a54c611a2ce5003d604201056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 45/79] fix: laed4: a successful three-pole step returned
 without a root

laed6 returns 0 on success; the caller left with info 0 and dlam unset
exactly then, and went on with an undefined step when laed6 failed.
---
 include/tlapack/lapack/laed4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/laed4.hpp b/include/tlapack/lapack/laed4.hpp
index f2d340a..cf710c6 100644
--- a/include/tlapack/lapack/laed4.hpp
+++ b/include/tlapack/lapack/laed4.hpp
@@ -609,7 +609,7 @@ int laed4(
             std::vector<real_t> sub(delta.begin() + iim1, delta.end());
             info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-            if (info == 0) {
+            if (info != 0) {
                 return info;
             }
         }
@@ -795,7 +795,7 @@ int laed4(
                 std::vector<real_t> sub(delta.begin() + iim1, delta.end());
                 info = laed6(niter, orgati, c, sub, zz, w, eta);
 
-                if (info == 0) {
+                if (info != 0) {
                     return info;
                 }
             }
-- 
2.43.0


From 9efa9fa6ae942742cde816d4237f41fe9e1b79b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 46/79] fix: trevc3: HowMny::Select processed blocks twice and
 columns out of range

---
 include/tlapack/lapack/trevc3.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index d436e95..e273ccf 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -268,13 +268,16 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
+                bool found = false;
                 for (idx_t jj = 0; jj < i + 1; jj++) {
                     idx_t j = i - jj;
                     if (select[j]) {
                         i_end = j;
+                        found = true;
                         break;
                     }
                 }
+                if (!found) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_start = 0;
@@ -333,7 +336,7 @@ int trevc3_work(const side_t side,
                 iVr -= nb2;
             }
 
-            ii += nb2;
+            ii = n - i_start;
         }
     }
 
@@ -351,17 +354,20 @@ int trevc3_work(const side_t side,
             if (howmny == HowMny::Select) {
                 // Find the first eigenvalue with index <= i with select ==
                 // true
+                bool found = false;
                 for (idx_t j = i; j < n; j++) {
                     if (select[j]) {
                         i_start = j;
+                        found = true;
                         break;
                     }
                 }
+                if (!found) break;
                 // Find the last eigenvalue with index <= i_end with select ==
                 // true
                 i_end = n - 1;
                 for (idx_t j = i_start + 1; j < n; j++) {
-                    if (j > i_start + nb) {
+                    if (j >= i_start + nb) {
                         // Don't make the block too big
                         i_end = j - 1;
                         break;
@@ -413,7 +419,7 @@ int trevc3_work(const side_t side,
                 iVl += nb2;
             }
 
-            i += nb2;
+            i = i_end + 1;
         }
     }
 
-- 
2.43.0


From 53fdb74f49fda11f340f620dcbed0b7a1a6269a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 47/79] fix: trevc3: back-transformation multiplied
 uninitialized workspace by zero

---
 include/tlapack/lapack/trevc3.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index e273ccf..6439e0b 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -321,8 +321,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(0, i_end + 1), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vr_block =
                     slice(Vr, range(0, n), range(i_start, i_end + 1));
@@ -405,8 +404,7 @@ int trevc3_work(const side_t side,
                 auto X_block = slice(X, range(i_start, n), range(0, nb2));
                 auto [Qx, work3] = reshape(work2, n, nb2);
 
-                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, TT(0),
-                     Qx);
+                gemm(Op::NoTrans, Op::NoTrans, TT(1), Q_slice, X_block, Qx);
 
                 auto Vl_block =
                     slice(Vl, range(0, n), range(i_start, i_end + 1));
-- 
2.43.0


From b354575f8137b878e4aa3f3da41b744c1b956ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:49 +0000
Subject: [PATCH 48/79] fix: tik_bidiag_elden, tik_svd: matrices without
 columns

---
 include/tlapack/lapack/tik_bidiag_elden.hpp | 3 +++
 include/tlapack/lapack/tik_svd.hpp          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/tlapack/lapack/tik_bidiag_elden.hpp b/include/tlapack/lapack/tik_bidiag_elden.hpp
index 4659d9a..6cff3bd 100644
--- a/include/tlapack/lapack/tik_bidiag_elden.hpp
+++ b/include/tlapack/lapack/tik_bidiag_elden.hpp
@@ -63,6 +63,9 @@ void tik_bidiag_elden(matrixA_t& A, matrixb_t& b, real_t lambda)
     const idx_t n = ncols(A);
     const idx_t k = ncols(b);
 
+    // quick return
+    if (n == 0) return;
+
     // Bidiagonal decomposition
     std::vector<T> tauv(n);
     std::vector<T> tauw(n);
diff --git a/include/tlapack/lapack/tik_svd.hpp b/include/tlapack/lapack/tik_svd.hpp
index ff8e0f4..7e64660 100644
--- a/include/tlapack/lapack/tik_svd.hpp
+++ b/include/tlapack/lapack/tik_svd.hpp
@@ -48,6 +48,9 @@ void tik_svd(matrixA_t& A, matrixb_t& b, real_t lambda)
 
     using range = pair<idx_t, idx_t>;
 
+    // quick return
+    if (n == 0) return;
+
     std::vector<T> tauv(n);
     std::vector<T> tauw(n);
 
-- 
2.43.0


From 4a0124c934c978bab54b0776a7cf77b81ca9849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 49/79] fix: legacy unm2r passed the pointer instead of the
 matrix; tau has the type of A

---
 include/tlapack/legacy_api/lapack/unm2r.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/unm2r.hpp b/include/tlapack/legacy_api/lapack/unm2r.hpp
index b7e6eca..2dd6488 100644
--- a/include/tlapack/legacy_api/lapack/unm2r.hpp
+++ b/include/tlapack/legacy_api/lapack/unm2r.hpp
@@ -33,10 +33,11 @@ namespace legacy {
      * @param[in] k The number of elementary reflectors whose product defines
      * the matrix Q. If side='L', m>=k>=0; if side='R', n>=k>=0.
      * @param[in] A Matrix containing the elementary reflectors H.
-     *                 If side='L', A is k-by-m;
-     *                 if side='R', A is k-by-n.
-     * @param[in] lda The column length of the matrix A.  ldA>=k.
-     * @param[in] tau Real vector of length k containing the scalar factors of
+     *                 If side='L', A is m-by-k;
+     *                 if side='R', A is n-by-k.
+     * @param[in] lda The column length of the matrix A.  If side='L', ldA>=m;
+     *                 if side='R', ldA>=n.
+     * @param[in] tau Vector of length k containing the scalar factors of
      * the elementary reflectors.
      * @param[in,out] C m-by-n matrix.
      *     On exit, C is replaced by one of the following:
@@ -56,7 +57,7 @@ namespace legacy {
               idx_t k,
               TA* A,
               idx_t lda,
-              const real_type<TA, TC>* tau,
+              const TA* tau,
               TC* C,
               idx_t ldc)
     {
@@ -82,7 +83,7 @@ namespace legacy {
         const auto tau_ = create_vector((TA*)tau, k);
         auto C_ = create_matrix<TC>(C, m, n, ldc);
 
-        return unm2r(side, trans, A, tau_, C_);
+        return unm2r(side, trans, A_, tau_, C_);
     }
 
 }  // namespace legacy
-- 
2.43.0


From 39251881b31e5fd48f0f89e8793f58e1ee776e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 50/79] fix: legacy ung2r: reflectors beyond the k given ones

---
 include/tlapack/legacy_api/lapack/ung2r.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/ung2r.hpp b/include/tlapack/legacy_api/lapack/ung2r.hpp
index 64d79a4..04bac17 100644
--- a/include/tlapack/legacy_api/lapack/ung2r.hpp
+++ b/include/tlapack/legacy_api/lapack/ung2r.hpp
@@ -35,7 +35,7 @@ namespace legacy {
      * GEQRF in the first k columns of its array argument A. On exit, the m-by-n
      * matrix $Q  = H_1 H_2 ... H_k$.
      * @param[in] lda The leading dimension of A. lda >= max(1,m).
-     * @param[in] tau Real vector of length min(m,n).
+     * @param[in] tau Vector of length k.
      *      The scalar factors of the elementary reflectors.
      *
      * @ingroup legacy_lapack
@@ -57,7 +57,7 @@ namespace legacy {
 
         // Matrix views
         auto A_ = create_matrix<TA>(A, m, n, lda);
-        auto tau_ = create_vector((TT*)tau, min(m, n));
+        auto tau_ = create_vector((TT*)tau, k);
 
         return ung2r(A_, tau_);
     }
-- 
2.43.0


From 7d26280c2e5fa965011c15f1e37cda604bbc6ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 51/79] fix: legacy gemv: row-major ConjTrans wrote to the
 constant operand x

---
 include/tlapack/legacy_api/blas/gemv.hpp | 41 ++++++------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/gemv.hpp b/include/tlapack/legacy_api/blas/gemv.hpp
index 1bf5ec8..dc4cfed 100644
--- a/include/tlapack/legacy_api/blas/gemv.hpp
+++ b/include/tlapack/legacy_api/blas/gemv.hpp
@@ -117,30 +117,21 @@ namespace legacy {
             return;
 
         // Transpose if Row Major
-        bool doConj = false;
         if (layout == Layout::RowMajor) {
-            // A => A^T; A^T => A; A^H => A & doConj
+            // A => A^T; A^T => A; A^H => conj(A)
             std::swap(m, n);
             if (trans == Op::NoTrans)
                 trans = Op::Trans;
-            else {
-                if (trans == Op::ConjTrans) doConj = true;
+            else if (trans == Op::Trans)
                 trans = Op::NoTrans;
-            }
+            else
+                trans = Op::Conj;
         }
 
         // Initialize indexes
-        const idx_t lenx = ((trans == Op::NoTrans) ? n : m);
-        const idx_t leny = ((trans == Op::NoTrans) ? m : n);
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
-        }
+        const bool noTrans = (trans == Op::NoTrans || trans == Op::Conj);
+        const idx_t lenx = noTrans ? n : m;
+        const idx_t leny = noTrans ? m : n;
 
         // Matrix views
         const auto A_ = create_matrix<TA>((TA*)A, m, n, lda);
@@ -150,25 +141,13 @@ namespace legacy {
                 y_, TY, leny, y, incy,
                 if (beta == scalar_t(0)) for (idx_t i = 0; i < leny; ++i)
                     y_[i] = TY(0);
-                else for (idx_t i = 0; i < leny; ++i) y_[i] *=
-                (doConj) ? conj(beta) : beta);
+                else for (idx_t i = 0; i < leny; ++i) y_[i] *= beta);
         }
         else {
             tlapack_expr_with_2vectors(
                 x_, TX, lenx, x, incx, y_, TY, leny, y, incy,
-                if (beta == scalar_t(0))
-                    gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_, y_);
-                else gemv(trans, (doConj) ? conj(alpha) : alpha, A_, x_,
-                          (doConj) ? conj(beta) : beta, y_));
-        }
-
-        // Conjugate if A is row-major and initially trans is Op::ConjTrans
-        if (doConj) {
-            TX* x2 = const_cast<TX*>(x);
-            for (idx_t i = 0; i < lenx; ++i)
-                x2[i * abs(incx)] = conj(x2[i * abs(incx)]);
-            for (idx_t i = 0; i < leny; ++i)
-                y[i * abs(incy)] = conj(y[i * abs(incy)]);
+                if (beta == scalar_t(0)) gemv(trans, alpha, A_, x_, y_);
+                else gemv(trans, alpha, A_, x_, beta, y_));
         }
     }
 
-- 
2.43.0


From 906ccb7773f36192b5c07ee35f2d3b68164f9241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 52/79] fix: legacy her, her2: row-major complex matrices were
 updated with the conjugate

---
 include/tlapack/legacy_api/blas/her.hpp  | 18 +++++++++++-------
 include/tlapack/legacy_api/blas/her2.hpp | 19 +++++++++++--------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her.hpp b/include/tlapack/legacy_api/blas/her.hpp
index db2fb72..62a2ab1 100644
--- a/include/tlapack/legacy_api/blas/her.hpp
+++ b/include/tlapack/legacy_api/blas/her.hpp
@@ -71,6 +71,7 @@ namespace legacy {
              idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using real_t = real_type<TA, TX>;
 
         // check arguments
@@ -84,15 +85,18 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == real_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
+        }
+        else {
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_vector(x_, TX, n, x, incx, her(uplo, alpha, x_, A_));
+            tlapack_expr_with_vector(x_, TX, n, x, incx,
+                                     return her(uplo, alpha, x_, A_));
+        }
     }
 
 }  // namespace legacy
diff --git a/include/tlapack/legacy_api/blas/her2.hpp b/include/tlapack/legacy_api/blas/her2.hpp
index 6a3e02c..d4df755 100644
--- a/include/tlapack/legacy_api/blas/her2.hpp
+++ b/include/tlapack/legacy_api/blas/her2.hpp
@@ -80,6 +80,7 @@ namespace legacy {
               idx_t lda)
     {
         using internal::create_matrix;
+        using internal::create_rowmajor_matrix;
         using scalar_t = scalar_type<TA, TX>;
 
         // check arguments
@@ -94,16 +95,18 @@ namespace legacy {
         // quick return
         if (n == 0 || alpha == scalar_t(0)) return;
 
-        // for row major, swap lower <=> upper
-        if (layout == Layout::RowMajor) {
-            uplo = (uplo == Uplo::Lower ? Uplo::Upper : Uplo::Lower);
-        }
+        if (layout == Layout::ColMajor) {
+            auto A_ = create_matrix<TA>(A, n, n, lda);
 
-        // Matrix views
-        auto A_ = create_matrix<TA>(A, n, n, lda);
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
+        else {
+            auto A_ = create_rowmajor_matrix<TA>(A, n, n, lda);
 
-        tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
-                                   return her2(uplo, alpha, x_, y_, A_));
+            tlapack_expr_with_2vectors(x_, TX, n, x, incx, y_, TY, n, y, incy,
+                                       return her2(uplo, alpha, x_, y_, A_));
+        }
     }
 
 }  // namespace legacy
-- 
2.43.0


From 40a7b9fc3fdfa67a6ed634838beef3fe6b719afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 53/79] fix: legacy herk, her2k, syrk, syr2k: alpha = 0 scaled
 the triangle that is not referenced

---
 include/tlapack/legacy_api/blas/her2k.hpp | 17 ++++++++++-------
 include/tlapack/legacy_api/blas/herk.hpp  | 17 ++++++++++-------
 include/tlapack/legacy_api/blas/syr2k.hpp | 16 +++++++++-------
 include/tlapack/legacy_api/blas/syrk.hpp  | 16 +++++++++-------
 4 files changed, 38 insertions(+), 28 deletions(-)

diff --git a/include/tlapack/legacy_api/blas/her2k.hpp b/include/tlapack/legacy_api/blas/her2k.hpp
index dbcc272..715b81c 100644
--- a/include/tlapack/legacy_api/blas/her2k.hpp
+++ b/include/tlapack/legacy_api/blas/her2k.hpp
@@ -160,15 +160,18 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == scalar_t(0)) {
-            if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t ibegin = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t iend = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == real_t(0)) {
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    C_(j, j) = TC(real(C_(j, j)));
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/herk.hpp b/include/tlapack/legacy_api/blas/herk.hpp
index e75494c..2cadb95 100644
--- a/include/tlapack/legacy_api/blas/herk.hpp
+++ b/include/tlapack/legacy_api/blas/herk.hpp
@@ -138,15 +138,18 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == real_t(0)) {
-            if (beta == real_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t ibegin = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t iend = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == real_t(0)) {
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    C_(j, j) = TC(real(C_(j, j)));
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syr2k.hpp b/include/tlapack/legacy_api/blas/syr2k.hpp
index b5e1500..46a1f54 100644
--- a/include/tlapack/legacy_api/blas/syr2k.hpp
+++ b/include/tlapack/legacy_api/blas/syr2k.hpp
@@ -160,15 +160,17 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == scalar_t(0)) {
-            if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t ibegin = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t iend = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == scalar_t(0)) {
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
diff --git a/include/tlapack/legacy_api/blas/syrk.hpp b/include/tlapack/legacy_api/blas/syrk.hpp
index 41d9a22..92719e4 100644
--- a/include/tlapack/legacy_api/blas/syrk.hpp
+++ b/include/tlapack/legacy_api/blas/syrk.hpp
@@ -140,15 +140,17 @@ namespace legacy {
         auto C_ = create_matrix<TC>(C, n, n, ldc);
 
         if (alpha == scalar_t(0)) {
-            if (beta == scalar_t(0)) {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t ibegin = (uplo == Uplo::Lower) ? j : 0;
+                const idx_t iend = (uplo == Uplo::Upper) ? j + 1 : n;
+                if (beta == scalar_t(0)) {
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) = TC(0);
-            }
-            else {
-                for (idx_t j = 0; j < n; ++j)
-                    for (idx_t i = 0; i < n; ++i)
+                }
+                else {
+                    for (idx_t i = ibegin; i < iend; ++i)
                         C_(i, j) *= beta;
+                }
             }
         }
         else {
-- 
2.43.0


From 9cda61fd38a20cb856681e2ef613e8e1f5a12e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 54/79] fix: legacy rotm: the check of the flag could never
 fail

---
 include/tlapack/legacy_api/blas/rotm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/legacy_api/blas/rotm.hpp b/include/tlapack/legacy_api/blas/rotm.hpp
index c69aaec..ad57fb5 100644
--- a/include/tlapack/legacy_api/blas/rotm.hpp
+++ b/include/tlapack/legacy_api/blas/rotm.hpp
@@ -67,7 +67,7 @@ namespace legacy {
         // check arguments
         tlapack_check_false(incx == 0);
         tlapack_check_false(incy == 0);
-        tlapack_check_false(flag < -2 && flag > 1);
+        tlapack_check_false(flag < -2 || flag > 1);
 
         // quick return
         if (n <= 0) return;
-- 
2.43.0


From 2198ab29331a7fd9534b84993eaffb16ef82c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 55/79] fix: legacy lascl: banded matrices ignored the leading
 dimension

---
 include/tlapack/legacy_api/lapack/lascl.hpp | 33 +++++++++++++--------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/tlapack/legacy_api/lapack/lascl.hpp b/include/tlapack/legacy_api/lapack/lascl.hpp
index d7cbf0e..d7d668e 100644
--- a/include/tlapack/legacy_api/lapack/lascl.hpp
+++ b/include/tlapack/legacy_api/lapack/lascl.hpp
@@ -68,7 +68,6 @@ namespace legacy {
               T* A,
               idx_t lda)
     {
-        using internal::create_banded_matrix;
         using internal::create_matrix;
 
         // check arguments
@@ -103,17 +102,27 @@ namespace legacy {
         tlapack_check_false((matrixtype == MatrixType::Band) &&
                             (lda < 2 * kl + ku + 1));
 
-        if (matrixtype == MatrixType::LowerBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, 0);
-            return lascl(BandAccess{size_t(kl), 0}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::UpperBand) {
-            auto A_ = create_banded_matrix<T>(A, m, n, 0, ku);
-            return lascl(BandAccess{0, size_t(ku)}, b, a, A_);
-        }
-        else if (matrixtype == MatrixType::Band) {
-            auto A_ = create_banded_matrix<T>(A, m, n, kl, ku);
-            return lascl(BandAccess{size_t(kl), size_t(ku)}, b, a, A_);
+        if (matrixtype == MatrixType::LowerBand ||
+            matrixtype == MatrixType::UpperBand ||
+            matrixtype == MatrixType::Band) {
+            // Number of sub- and superdiagonals that are stored, and row of
+            // the array that stores the outermost superdiagonal
+            const idx_t l = (matrixtype == MatrixType::UpperBand) ? 0 : kl;
+            const idx_t u = (matrixtype == MatrixType::LowerBand) ? 0 : ku;
+            const idx_t first = (matrixtype == MatrixType::Band) ? kl : 0;
+
+            for (idx_t j = 0; j < n; ++j) {
+                const idx_t ibegin = (j > u) ? j - u : 0;
+                const idx_t iend = min(m, j + l + 1);
+                if (ibegin >= iend) break;
+
+                // A( i, j ) is stored in A[ first + u + i - j + j * lda ]
+                auto A_ = create_matrix<T>(
+                    &A[first + u + ibegin - j + j * lda], iend - ibegin, 1);
+                const int info = lascl(GENERAL, b, a, A_);
+                if (info != 0) return info;
+            }
+            return 0;
         }
         else {
             auto A_ = create_matrix<T>(A, m, n, lda);
-- 
2.43.0


From 5f682ba8b53238badca004d18179813c5aafb73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:34 +0000
Subject: [PATCH 56/79] fix: legacy larfg: n = 0 wrapped around

---
 include/tlapack/legacy_api/lapack/larfg.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tlapack/legacy_api/lapack/larfg.hpp b/include/tlapack/legacy_api/lapack/larfg.hpp
index 71738ed..9006e01 100644
--- a/include/tlapack/legacy_api/lapack/larfg.hpp
+++ b/include/tlapack/legacy_api/lapack/larfg.hpp
@@ -20,6 +20,12 @@ namespace legacy {
     template <typename T>
     void larfg(idx_t n, T& alpha, T* x, int_t incx, T& tau)
     {
+        // quick return
+        if (n <= 0) {
+            tau = T(0);
+            return;
+        }
+
         tlapack_expr_with_vector(
             x_, T, n - 1, x, incx,
             return larfg(COLUMNWISE_STORAGE, alpha, x_, tau));
-- 
2.43.0


From d190d47effcee6406ffb8932afd3aa3e5f79bb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:31 +0000
Subject: [PATCH 57/79] fix: reshape of a matrix with gaps into an empty matrix
 keeps the requested shape

---
 include/tlapack/plugins/legacyArray.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 3efe54e..9e509e8 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -608,12 +608,14 @@ auto reshape(LegacyMatrix<T, idx_t, layout>& A,
                 : matrix_t(1, size - new_size, &A.ptr[0] + new_size));
     }
     else {
-        if (m == A.m || n == 0)
+        if (m == A.m)
             return std::make_pair(cols(A, std::pair{(idx_t)0, n}),
                                   cols(A, std::pair{n, A.n}));
-        else if (n == A.n || m == 0)
+        else if (n == A.n)
             return std::make_pair(rows(A, std::pair{(idx_t)0, m}),
                                   rows(A, std::pair{m, A.m}));
+        else if (new_size == 0)
+            return std::make_pair(matrix_t(m, n, &A.ptr[0]), A);
         else
             throw std::domain_error(
                 "Cannot reshape to non-contiguous matrix into a matrix if both "
-- 
2.43.0


From 47564f2405da71da2d90dada4a9344d805b1a585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 58/79] fix: a strided single row or column can be reshaped
 into vectors of any smaller size

---
 include/tlapack/plugins/legacyArray.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/tlapack/plugins/legacyArray.hpp b/include/tlapack/plugins/legacyArray.hpp
index 9e509e8..b831f6f 100644
--- a/include/tlapack/plugins/legacyArray.hpp
+++ b/include/tlapack/plugins/legacyArray.hpp
@@ -651,6 +651,13 @@ auto reshape(LegacyMatrix<T, idx_t, layout>& A,
         if (n == 0) {
             return std::make_pair(vector_t(0, &A.ptr[0]), A);
         }
+        else if (A.n == 1 || A.m == 1) {
+            // Strided vector: take the leading entries
+            return std::make_pair(
+                vector_t(n, &A.ptr[0], A.ldim),
+                (A.n == 1) ? matrix_t(A.m - n, 1, &A.ptr[0] + n * A.ldim, A.ldim)
+                           : matrix_t(1, A.n - n, &A.ptr[0] + n * A.ldim, A.ldim));
+        }
         else if (n == A.m) {
             if constexpr (layout == Layout::ColMajor)
                 return std::make_pair(
-- 
2.43.0


From 9a4b7cbc2df5978c3bfb532d4c14ada5ea399cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 59/79] fix: WorkInfo::minMax kept shapes from which a
 non-contiguous workspace cannot be split

---
 include/tlapack/base/workspace.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tlapack/base/workspace.hpp b/include/tlapack/base/workspace.hpp
index fd6b2f7..56c18de 100644
--- a/include/tlapack/base/workspace.hpp
+++ b/include/tlapack/base/workspace.hpp
@@ -61,15 +61,15 @@ struct WorkInfo {
                 n = 1;
                 isContiguous = true;
             }
-            else if ((m >= m1 && n >= n1) ||
-                     (workinfo.isVector && (m >= n1 && n >= m1))) {
-                // Current shape cover workinfo's shape, nothing to be done.
-                // If workinfo represents a vector, then we also check if the
-                // vector fits transposed. In such a case, nothing to be done.
+            else if (isVector == workinfo.isVector &&
+                     ((m == m1 && n >= n1) || (n == n1 && m >= m1))) {
+                // Current shape covers workinfo's shape, nothing to be done.
+                // Sharing a dimension is necessary because a matrix that is
+                // not contiguous can only be split into rows or columns.
             }
-            else if ((m1 >= m && n1 >= n) ||
-                     (isVector && (m1 >= n && n1 >= m))) {
-                // Same as above, but for the opposite case. THerefore, use the
+            else if (isVector == workinfo.isVector &&
+                     ((m == m1 && n1 >= n) || (n == n1 && m1 >= m))) {
+                // Same as above, but for the opposite case. Therefore, use the
                 // sizes from workinfo.
                 m = m1;
                 n = n1;
-- 
2.43.0


From 3fdaaf33f65e306adc771bf88184acbb99d13603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:16 +0000
Subject: [PATCH 60/79] fix: WorkInfo::transpose dropped the contiguity
 requirement

---
 include/tlapack/base/workspace.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/base/workspace.hpp b/include/tlapack/base/workspace.hpp
index 56c18de..6bbbd07 100644
--- a/include/tlapack/base/workspace.hpp
+++ b/include/tlapack/base/workspace.hpp
@@ -161,8 +161,11 @@ struct WorkInfo {
     {
         if (size() == 0 || isVector)
             return *this;
-        else
-            return WorkInfo(n, m);
+        else {
+            WorkInfo workinfo(n, m);
+            workinfo.isContiguous = isContiguous;
+            return workinfo;
+        }
     }
 
    protected:
-- 
2.43.0


From cb3d582233d57f87a5651844521e628f1fc8e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 61/79] fix: hetrf_blocked_worksize reported a column although
 the workspace is used as an n-by-nb matrix

---
 include/tlapack/lapack/hetrf_blocked.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/hetrf_blocked.hpp b/include/tlapack/lapack/hetrf_blocked.hpp
index 62ce255..1ad393b 100644
--- a/include/tlapack/lapack/hetrf_blocked.hpp
+++ b/include/tlapack/lapack/hetrf_blocked.hpp
@@ -35,7 +35,7 @@ constexpr WorkInfo hetrf_blocked_worksize(const matrix_t& A,
                                           const BlockedLDLOpts& opts)
 {
     if constexpr (is_same_v<T, type_t<matrix_t>>)
-        return WorkInfo(nrows(A) * opts.nb);
+        return WorkInfo(nrows(A), opts.nb);
     else
         return WorkInfo(0);
 }
-- 
2.43.0


From 7edffc0158ca17260ee40ed2057501f9fd21aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 62/79] fix: trevc, trevc3: entries below the diagonal of a
 complex triangular matrix were taken for 2-by-2 blocks

---
 include/tlapack/lapack/trevc.hpp         | 10 +++++-----
 include/tlapack/lapack/trevc3.hpp        |  6 +++---
 include/tlapack/lapack/trevc_protect.hpp |  4 ++--
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/tlapack/lapack/trevc.hpp b/include/tlapack/lapack/trevc.hpp
index 58cfd8e..a3305e0 100644
--- a/include/tlapack/lapack/trevc.hpp
+++ b/include/tlapack/lapack/trevc.hpp
@@ -152,7 +152,7 @@ int trevc(const side_t side,
         while (j < n) {
             bool pair = false;
             if (j < n - 1) {
-                if (T(j + 1, j) != TT(0)) {
+                if (is_real<TT> && T(j + 1, j) != TT(0)) {
                     pair = true;
                 }
             }
@@ -198,14 +198,14 @@ int trevc(const side_t side,
                 }
             }
             if (i > 0) {
-                if (T(i, i - 1) != TT(0)) {
+                if (is_real<TT> && T(i, i - 1) != TT(0)) {
                     continue;
                 }
             }
 
             bool pair = false;
             if (i < n - 1) {
-                if (T(i + 1, i) != TT(0)) {
+                if (is_real<TT> && T(i + 1, i) != TT(0)) {
                     pair = true;
                 }
             }
@@ -288,14 +288,14 @@ int trevc(const side_t side,
                 }
             }
             if (i > 0) {
-                if (T(i, i - 1) != TT(0)) {
+                if (is_real<TT> && T(i, i - 1) != TT(0)) {
                     continue;
                 }
             }
 
             bool pair = false;
             if (i < n - 1) {
-                if (T(i + 1, i) != TT(0)) {
+                if (is_real<TT> && T(i + 1, i) != TT(0)) {
                     pair = true;
                 }
             }
diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index 6439e0b..df4c534 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -215,7 +215,7 @@ int trevc3_work(const side_t side,
         while (j < n) {
             bool pair = false;
             if (j < n - 1) {
-                if (T(j + 1, j) != TT(0)) {
+                if (is_real<TT> && T(j + 1, j) != TT(0)) {
                     pair = true;
                 }
             }
@@ -302,7 +302,7 @@ int trevc3_work(const side_t side,
 
             // Make sure we don't split 2x2 blocks
             if (i_start > 0) {
-                if (T(i_start, i_start - 1) != TT(0)) {
+                if (is_real<TT> && T(i_start, i_start - 1) != TT(0)) {
                     i_start--;
                 }
             }
@@ -385,7 +385,7 @@ int trevc3_work(const side_t side,
 
             // Make sure we don't split 2x2 blocks
             if (i_end + 1 < n) {
-                if (T(i_end + 1, i_end) != TT(0)) {
+                if (is_real<TT> && T(i_end + 1, i_end) != TT(0)) {
                     i_end++;
                 }
             }
diff --git a/include/tlapack/lapack/trevc_protect.hpp b/include/tlapack/lapack/trevc_protect.hpp
index 7b89251..cc76150 100644
--- a/include/tlapack/lapack/trevc_protect.hpp
+++ b/include/tlapack/lapack/trevc_protect.hpp
@@ -521,7 +521,7 @@ void trevc_colnorms(Norm norm, const matrix_T_t& T, vector_colN_t& colN)
         for (idx_t j = 0; j < n;) {
             bool pair = false;
             if (j + 1 < n) {
-                if (T(j + 1, j) != TT(0)) {
+                if (is_real<TT> && T(j + 1, j) != TT(0)) {
                     pair = true;
                 }
             }
@@ -552,7 +552,7 @@ void trevc_colnorms(Norm norm, const matrix_T_t& T, vector_colN_t& colN)
         for (idx_t j = 0; j < n;) {
             bool pair = false;
             if (j + 1 < n) {
-                if (T(j + 1, j) != TT(0)) {
+                if (is_real<TT> && T(j + 1, j) != TT(0)) {
                     pair = true;
                 }
             }
-- 
2.43.0


From ec6875723ae5117d2d2fc002c435b10350280c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:30 +0000
Subject: [PATCH 63/79] fix: trevc3: column bounds included entries below the
 diagonal, which are not referenced

---
 include/tlapack/lapack/trevc3.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/trevc3.hpp b/include/tlapack/lapack/trevc3.hpp
index df4c534..29fbbcf 100644
--- a/include/tlapack/lapack/trevc3.hpp
+++ b/include/tlapack/lapack/trevc3.hpp
@@ -249,7 +249,7 @@ int trevc3_work(const side_t side,
     auto [colN, rwork2] = reshape(rwork, n);
 
     for (idx_t j = 0; j < n; ++j) {
-        auto itmax = iamax(slice(col(T, j), range(0, n)));
+        auto itmax = iamax(slice(col(T, j), range(0, j + 1)));
         colN[j] = abs1(T(itmax, j));
     }
 
-- 
2.43.0


From 2cb39998b31c9c44685323d1372b6fbbbb7100c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 64/79] fix: gemmtr checks both dimensions of C

---
 include/tlapack/lapack/gemmtr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gemmtr.hpp b/include/tlapack/lapack/gemmtr.hpp
index 14f2fb8..6e513a9 100644
--- a/include/tlapack/lapack/gemmtr.hpp
+++ b/include/tlapack/lapack/gemmtr.hpp
@@ -82,7 +82,7 @@ void gemmtr(Uplo uplo,
                         transA != Op::ConjTrans);
     tlapack_check_false(transB != Op::NoTrans && transB != Op::Trans &&
                         transB != Op::ConjTrans);
-    tlapack_check_false((idx_t)ncols(C) != n && (idx_t)nrows(C) != n);
+    tlapack_check_false((idx_t)ncols(C) != n || (idx_t)nrows(C) != n);
     tlapack_check_false(
         (idx_t)((transA == Op::NoTrans) ? ncols(A) : nrows(A)) != k);
     tlapack_check_false(
-- 
2.43.0


From 1fd3795822be6e58725548f8bb6fe6fc781c3295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 65/79] fix: larfb checks the number of reflectors in V

---
 include/tlapack/lapack/larfb.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tlapack/lapack/larfb.hpp b/include/tlapack/lapack/larfb.hpp
index 35f9a11..840385a 100644
--- a/include/tlapack/lapack/larfb.hpp
+++ b/include/tlapack/lapack/larfb.hpp
@@ -140,10 +140,10 @@ int larfb_work(side_t side,
                         storeMode != StoreV::Rowwise);
     tlapack_check(
         (storeMode == StoreV::Columnwise)
-            ? ((ncols(V) == k) && (side == Side::Left) ? (nrows(V) == m)
-                                                       : (nrows(V) == n))
-            : ((nrows(V) == k) && (side == Side::Left) ? (ncols(V) == m)
-                                                       : (ncols(V) == n)));
+            ? ((ncols(V) == k) &&
+               (nrows(V) == ((side == Side::Left) ? m : n)))
+            : ((nrows(V) == k) &&
+               (ncols(V) == ((side == Side::Left) ? m : n))));
     tlapack_check(nrows(Tmatrix) == ncols(Tmatrix));
 
     // Quick return
-- 
2.43.0


From 2f1313d7f6f6cd65db95c9940e170dcd664d4895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 66/79] fix: larf checks the size of C0

---
 include/tlapack/lapack/larf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tlapack/lapack/larf.hpp b/include/tlapack/lapack/larf.hpp
index a2fe9cf..408219d 100644
--- a/include/tlapack/lapack/larf.hpp
+++ b/include/tlapack/lapack/larf.hpp
@@ -69,6 +69,7 @@ void larf_work(side_t side,
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
     tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
+    tlapack_check(k == ((side == Side::Left) ? n : m));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
@@ -283,6 +284,7 @@ void larf(side_t side,
     tlapack_check(storeMode == StoreV::Columnwise ||
                   storeMode == StoreV::Rowwise);
     tlapack_check((idx_t)size(x) == ((side == Side::Left) ? m : n));
+    tlapack_check(k == ((side == Side::Left) ? n : m));
 
     // Quick return if possible
     if (m == 0 || n == 0) {
-- 
2.43.0


From 46471c75cf93fd5fc57c4848e05462ad1e463a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 67/79] fix: lacpy checks that A fits into B

---
 include/tlapack/lapack/lacpy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tlapack/lapack/lacpy.hpp b/include/tlapack/lapack/lacpy.hpp
index 720d28e..a75ac88 100644
--- a/include/tlapack/lapack/lacpy.hpp
+++ b/include/tlapack/lapack/lacpy.hpp
@@ -48,6 +48,7 @@ void lacpy(uplo_t uplo, const matrixA_t& A, matrixB_t& B)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper &&
                         uplo != Uplo::General);
+    tlapack_check_false((idx_t)nrows(B) < m || (idx_t)ncols(B) < n);
 
     if (uplo == Uplo::Upper) {
         // Set the strictly upper triangular or trapezoidal part of B
-- 
2.43.0


From 49239fd8cbe327715c5200ad719f736fd6864944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 68/79] fix: lansy and lanhe check that A is square

---
 include/tlapack/lapack/lanhe.hpp | 1 +
 include/tlapack/lapack/lansy.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/tlapack/lapack/lanhe.hpp b/include/tlapack/lapack/lanhe.hpp
index 639d05a..6419162 100644
--- a/include/tlapack/lapack/lanhe.hpp
+++ b/include/tlapack/lapack/lanhe.hpp
@@ -54,6 +54,7 @@ auto lanhe(norm_t normType, uplo_t uplo, const matrix_t& A)
     tlapack_check_false(normType != Norm::Fro && normType != Norm::Inf &&
                         normType != Norm::Max && normType != Norm::One);
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
+    tlapack_check_false(nrows(A) != ncols(A));
 
     // quick return
     if (n <= 0) return real_t(0);
diff --git a/include/tlapack/lapack/lansy.hpp b/include/tlapack/lapack/lansy.hpp
index 87b0967..94f2edf 100644
--- a/include/tlapack/lapack/lansy.hpp
+++ b/include/tlapack/lapack/lansy.hpp
@@ -54,6 +54,7 @@ auto lansy(norm_t normType, uplo_t uplo, const matrix_t& A)
     tlapack_check_false(normType != Norm::Fro && normType != Norm::Inf &&
                         normType != Norm::Max && normType != Norm::One);
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper);
+    tlapack_check_false(nrows(A) != ncols(A));
 
     // quick return
     if (n <= 0) return real_t(0);
-- 
2.43.0


From 3b7a0838bb25ba4d360eb017723f0740bc6f6027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 69/79] fix: gehrd and gehd2 accept every documented range of
 columns and no other

---
 include/tlapack/lapack/gehd2.hpp | 2 ++
 include/tlapack/lapack/gehrd.hpp | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index 1ec3486..be600a7 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -92,6 +92,8 @@ int gehd2_work(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
+    tlapack_check_false((ilo < 0) or (ilo > ihi) or (ihi > n));
+
     for (idx_t i = ilo; i + 1 < ihi; ++i) {
         // Define v := A[i+1:ihi,i]
         auto v = slice(A, range{i + 1, ihi}, i);
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index c3c29bc..4eab446 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -123,7 +123,7 @@ int gehrd_work(size_type<matrix_t> ilo,
     if (n <= 0) return 0;
 
     // check arguments
-    tlapack_check_false((ilo < 0) or (ilo >= n));
+    tlapack_check_false((ilo < 0) or (ilo > ihi));
     tlapack_check_false((ihi < 0) or (ihi > n));
     tlapack_check_false(ncols(A) != nrows(A));
     tlapack_check_false((idx_t)size(tau) < n - 1);
-- 
2.43.0


From 8d5bcdfc06941fe4103c5035eee1f1c77ad2be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 70/79] fix: rot_sequence on empty matrices, and its side

---
 include/tlapack/lapack/rot_sequence.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/tlapack/lapack/rot_sequence.hpp b/include/tlapack/lapack/rot_sequence.hpp
index 55c7080..f10ffba 100644
--- a/include/tlapack/lapack/rot_sequence.hpp
+++ b/include/tlapack/lapack/rot_sequence.hpp
@@ -89,6 +89,16 @@ int rot_sequence(
     const idx_t n = ncols(A);
     const idx_t k = (side == Side::Left) ? m - 1 : n - 1;
 
+    // Check arguments
+    tlapack_check_false(side != Side::Left && side != Side::Right);
+
+    // No rotations act on an empty matrix
+    if ((side == Side::Left) ? (m == 0) : (n == 0)) {
+        tlapack_check(size(c) == 0);
+        tlapack_check(size(s) == 0);
+        return 0;
+    }
+
     // Check dimensions
     tlapack_check((idx_t)size(c) == k);
     tlapack_check((idx_t)size(s) == k);
-- 
2.43.0


From 443c26335780c94b8f4606262041d0a3f97ed6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 71/79] fix: tkhnv checks that b has as many rows as A

---
 include/tlapack/lapack/tkhnv.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/tlapack/lapack/tkhnv.hpp b/include/tlapack/lapack/tkhnv.hpp
index 28b78f2..cf26030 100644
--- a/include/tlapack/lapack/tkhnv.hpp
+++ b/include/tlapack/lapack/tkhnv.hpp
@@ -21,6 +21,7 @@ template <TLAPACK_MATRIX matrixA_t,
 void tkhnv(matrixA_t& A, matrixb_t& b, real_t lambda, const TikOpts& opts = {})
 {
     tlapack_check(nrows(A) >= ncols(A));
+    tlapack_check(nrows(b) == nrows(A));
 
     if (opts.variant == TikVariant::QR)
         tik_qr(A, b, lambda);
-- 
2.43.0


From 008bb54ab2b3f135bd38b89cbb91f445de4e7bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 72/79] fix: gehrd, gehd2, ungq and unmq check their arguments
 before the workspace query

---
 include/tlapack/lapack/gehd2.hpp | 2 ++
 include/tlapack/lapack/gehrd.hpp | 5 +++++
 include/tlapack/lapack/ungq.hpp  | 5 +++++
 include/tlapack/lapack/unmq.hpp  | 6 ++++++
 4 files changed, 18 insertions(+)

diff --git a/include/tlapack/lapack/gehd2.hpp b/include/tlapack/lapack/gehd2.hpp
index be600a7..66ca537 100644
--- a/include/tlapack/lapack/gehd2.hpp
+++ b/include/tlapack/lapack/gehd2.hpp
@@ -173,6 +173,8 @@ int gehd2(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
+    tlapack_check_false((ilo < 0) or (ilo > ihi) or (ihi > n));
+
     // Allocates workspace
     WorkInfo workinfo = gehd2_worksize<T>(ilo, ihi, A, tau);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/gehrd.hpp b/include/tlapack/lapack/gehrd.hpp
index 4eab446..97ec30f 100644
--- a/include/tlapack/lapack/gehrd.hpp
+++ b/include/tlapack/lapack/gehrd.hpp
@@ -238,6 +238,11 @@ int gehrd(size_type<matrix_t> ilo,
     // quick return
     if (n <= 0) return 0;
 
+    // check arguments, which must make sense to compute the workspace
+    tlapack_check_false((ilo < 0) or (ilo > ihi) or (ihi > n));
+    tlapack_check_false(ncols(A) != nrows(A));
+    tlapack_check_false((idx_t)size(tau) + 1 < n);
+
     // Allocates workspace
     WorkInfo workinfo = gehrd_worksize<T>(ilo, ihi, A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/ungq.hpp b/include/tlapack/lapack/ungq.hpp
index 859699b..e048af2 100644
--- a/include/tlapack/lapack/ungq.hpp
+++ b/include/tlapack/lapack/ungq.hpp
@@ -376,6 +376,11 @@ int ungq(direction_t direction,
     // quick return
     if (m <= 0 || n <= 0) return 0;
 
+    // check arguments, which must make sense to compute the workspace
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? (m >= n && n >= (idx_t)size(tau))
+                      : (n >= m && m >= (idx_t)size(tau)));
+
     // Allocates workspace
     WorkInfo workinfo = ungq_worksize<T>(direction, storeMode, A, tau, opts);
     std::vector<T> work_;
diff --git a/include/tlapack/lapack/unmq.hpp b/include/tlapack/lapack/unmq.hpp
index 90247af..a6315a1 100644
--- a/include/tlapack/lapack/unmq.hpp
+++ b/include/tlapack/lapack/unmq.hpp
@@ -303,6 +303,12 @@ int unmq(side_t side,
     // quick return
     if (m <= 0 || n <= 0 || k <= 0) return 0;
 
+    // check arguments, which must make sense to compute the workspace
+    const idx_t nQ = (side == Side::Left) ? m : n;
+    tlapack_check((storeMode == StoreV::Columnwise)
+                      ? ((ncols(V) == k) && (nrows(V) == nQ))
+                      : ((nrows(V) == k) && (ncols(V) == nQ)));
+
     // Allocates workspace
     WorkInfo workinfo =
         unmq_worksize<T>(side, trans, direction, storeMode, V, tau, C, opts);
-- 
2.43.0


From ba7fd520fb267af3697a4ad13fab7379903e5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 73/79] fix: gebrd checks the sizes of tauv and tauw

---
 include/tlapack/lapack/gebrd.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/tlapack/lapack/gebrd.hpp b/include/tlapack/lapack/gebrd.hpp
index 4b2cc46..ca7500f 100644
--- a/include/tlapack/lapack/gebrd.hpp
+++ b/include/tlapack/lapack/gebrd.hpp
@@ -92,6 +92,10 @@ int gebrd_work(matrix_t& A,
     const idx_t k = min(m, n);
     const idx_t nb = min((idx_t)opts.nb, k);
 
+    // check arguments
+    tlapack_check_false((idx_t)size(tauv) < k);
+    tlapack_check_false((idx_t)size(tauw) < k);
+
     // Matrices X and Y
     auto [X, work2] = reshape(work, m, nb);
     auto [Y, work3] = reshape(work2, n, nb);
-- 
2.43.0


From 6e17402041c37b709d4624a36e906ad20d6faec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 74/79] fix: complex schur_swap and generalized_schur_swap
 check that both blocks exist

---
 include/tlapack/lapack/generalized_schur_swap.hpp | 3 ++-
 include/tlapack/lapack/schur_swap.hpp             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tlapack/lapack/generalized_schur_swap.hpp b/include/tlapack/lapack/generalized_schur_swap.hpp
index e4d7363..41cd70d 100644
--- a/include/tlapack/lapack/generalized_schur_swap.hpp
+++ b/include/tlapack/lapack/generalized_schur_swap.hpp
@@ -1160,7 +1160,8 @@ int generalized_schur_swap(bool want_q,
     tlapack_check(nrows(A) == n);
     tlapack_check(nrows(Q) == n);
     tlapack_check(ncols(Q) == n);
-    tlapack_check(0 <= j0 and j0 < n);
+    tlapack_check(0 <= j0);
+    tlapack_check(j0 + n1 + n2 <= n);
     tlapack_check(n1 == 1);
     tlapack_check(n2 == 1);
 
diff --git a/include/tlapack/lapack/schur_swap.hpp b/include/tlapack/lapack/schur_swap.hpp
index 6b9e917..56acffa 100644
--- a/include/tlapack/lapack/schur_swap.hpp
+++ b/include/tlapack/lapack/schur_swap.hpp
@@ -467,7 +467,8 @@ int schur_swap(bool want_q,
     tlapack_check(nrows(A) == n);
     tlapack_check(nrows(Q) == n);
     tlapack_check(ncols(Q) == n);
-    tlapack_check(0 <= j0 and j0 < n);
+    tlapack_check(0 <= j0);
+    tlapack_check(j0 + n1 + n2 <= n);
     tlapack_check(n1 == 1);
     tlapack_check(n2 == 1);
 
-- 
2.43.0


From c05aac02c499a325095f5e6b1d23b3a15415887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:33 +0000
Subject: [PATCH 75/79] fix: hemm2 checks transB

---
 include/tlapack/lapack/hemm2.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tlapack/lapack/hemm2.hpp b/include/tlapack/lapack/hemm2.hpp
index ea6454f..bffed69 100644
--- a/include/tlapack/lapack/hemm2.hpp
+++ b/include/tlapack/lapack/hemm2.hpp
@@ -94,6 +94,8 @@ void hemm2(Side side,
     tlapack_check_false(side != LEFT_SIDE && side != RIGHT_SIDE);
     tlapack_check_false(uplo != LOWER_TRIANGLE && uplo != UPPER_TRIANGLE &&
                         uplo != GENERAL);
+    tlapack_check_false(transB != NO_TRANS && transB != TRANSPOSE &&
+                        transB != CONJ_TRANS);
     tlapack_check_false(nrows(A) != ncols(A));
     if ((side == LEFT_SIDE && transB == NO_TRANS) ||
         (side == RIGHT_SIDE && (transB == TRANSPOSE || transB == CONJ_TRANS))) {
-- 
2.43.0


From 9a9a4a22b4f35241e08ef34c6f79ceb6709db7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:42 +0000
Subject: [PATCH 76/79] fix: gelqt checks its arguments before the workspace
 query

---
 include/tlapack/lapack/gelqt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tlapack/lapack/gelqt.hpp b/include/tlapack/lapack/gelqt.hpp
index 1017eaa..91f9531 100644
--- a/include/tlapack/lapack/gelqt.hpp
+++ b/include/tlapack/lapack/gelqt.hpp
@@ -150,6 +150,9 @@ int gelqt(matrix_t& A, matrix_t& TT)
     // functors
     Create<matrix_t> new_matrix;
 
+    // check arguments, which must make sense to compute the workspace
+    tlapack_check_false(nrows(TT) < nrows(A));
+
     // Allocates workspace
     WorkInfo workinfo = gelqt_worksize<T>(A, TT);
     std::vector<T> work_;
-- 
2.43.0


From 5c73cf8aea9ec45668496b0f395a3a1ae5fb35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:07 +0000
Subject: [PATCH 77/79] fix: lacpy requires of B only the rows and columns it
 copies

---
 include/tlapack/lapack/lacpy.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/lacpy.hpp b/include/tlapack/lapack/lacpy.hpp
index a75ac88..c8aa330 100644
--- a/include/tlapack/lapack/lacpy.hpp
+++ b/include/tlapack/lapack/lacpy.hpp
@@ -48,7 +48,8 @@ void lacpy(uplo_t uplo, const matrixA_t& A, matrixB_t& B)
     // check arguments
     tlapack_check_false(uplo != Uplo::Lower && uplo != Uplo::Upper &&
                         uplo != Uplo::General);
-    tlapack_check_false((idx_t)nrows(B) < m || (idx_t)ncols(B) < n);
+    tlapack_check((idx_t)nrows(B) >= ((uplo == Uplo::Upper) ? min(m, n) : m));
+    tlapack_check((idx_t)ncols(B) >= ((uplo == Uplo::Lower) ? min(m, n) : n));
 
     if (uplo == Uplo::Upper) {
         // Set the strictly upper triangular or trapezoidal part of B
-- 
2.43.0


From 99fd0389c39d9b7211259b6fa37bbf39b102dad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:21 +0000
Subject: [PATCH 78/79] fix: trmm_blocked_mixed compiles for arrays whose size
 type is not size_t

min(opts.nb, m) mixes size_t with the size type of the matrix, so the routine
could not be instantiated with Eigen (and other signed-index) matrices.
---
 include/tlapack/lapack/trmm_blocked_mixed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tlapack/lapack/trmm_blocked_mixed.hpp b/include/tlapack/lapack/trmm_blocked_mixed.hpp
index 1729abe..321b00a 100644
--- a/include/tlapack/lapack/trmm_blocked_mixed.hpp
+++ b/include/tlapack/lapack/trmm_blocked_mixed.hpp
@@ -94,7 +94,7 @@ void trmm_blocked_mixed(
         // constants
         const idx_t m = nrows(B);
         const idx_t n = ncols(B);
-        const idx_t nb = min(opts.nb, m);
+        const idx_t nb = min<idx_t>(opts.nb, m);
 
         // check arguments
         tlapack_check_false(side != Side::Left && side != Side::Right);
-- 
2.43.0


From c2e66c92ddd27c039e275922c6237a31574e0407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:09 +0000
Subject: [PATCH 79/79] fix: a strided single row or column of an Eigen array
 can be reshaped into vectors of any smaller size

Same as 47564f2 for LegacyMatrix: a workspace that is one row (column) apart
was refused although it has exactly the queried shape.
---
 include/tlapack/plugins/eigen.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/tlapack/plugins/eigen.hpp b/include/tlapack/plugins/eigen.hpp
index 8c87065..35f7092 100644
--- a/include/tlapack/plugins/eigen.hpp
+++ b/include/tlapack/plugins/eigen.hpp
@@ -758,6 +758,15 @@ auto reshape(matrix_t& A, Eigen::Index n)
                 map0_t((T*)A.data(), 0, Eigen::InnerStride<>(1)),
                 map1_t((T*)A.data(), A.rows(), A.cols(), stride));
         }
+        else if (A.rows() == 1 || A.cols() == 1) {
+            // Strided vector: take the leading entries
+            return std::make_pair(
+                map0_t((T*)A.data(), n, Eigen::InnerStride<>(stride)),
+                (A.cols() == 1) ? map1_t((T*)A.data() + n * stride,
+                                         A.rows() - n, 1, stride)
+                                : map1_t((T*)A.data() + n * stride, 1,
+                                         A.cols() - n, stride));
+        }
         else if (n == A.rows()) {
             if constexpr (matrix_t::IsRowMajor)
                 return std::make_pair(
-- 
2.43.0

