From 1412c26e64bd39fa88d373f0b828d110364b940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:20 +0000
Subject: [PATCH 01/23] fix: CoeffMatrix2D move assignment releases the
 replaced buffer and survives self-assignment

---
 include/coeff_matrix_2d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 62605f5..41144c2 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -416,6 +416,9 @@ public:
 
   /** Move Assignment operator */
   CoeffMatrix2D &operator=(CoeffMatrix2D &&mat) noexcept {
+    if (this == &mat)
+      return *this;
+    delete[] m_data;
     m_data = mat.m_data;
     m_storage.__set_dimensions(mat.rows(), mat.cols());
     _capacity = mat._capacity;
-- 
2.43.0


From 2abed8e90c956b97854b50ff30e5f74ef519074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:20 +0000
Subject: [PATCH 02/23] fix: CoeffMatrix2D::resize keeps its buffer when the
 allocation throws

---
 include/coeff_matrix_2d.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 41144c2..691f869 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -442,9 +442,11 @@ public:
   void resize(int rows, int cols) {
     /* do we need to re-allocate ? */
     if (StorageImplementation<S>(rows, cols).num_elements() > _capacity) {
+      double *ptr =
+          new double[StorageImplementation<S>(rows, cols).num_elements()];
       if (m_data)
         delete[] m_data;
-      m_data = new double[StorageImplementation<S>(rows, cols).num_elements()];
+      m_data = ptr;
       _capacity = StorageImplementation<S>(rows, cols).num_elements();
     } else {
       ;
-- 
2.43.0


From be24a473a3d77c1805a604cc7a9369cf66df1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:14 +0000
Subject: [PATCH 03/23] fix: StokesCoeffs constructor keeps a requested order
 of zero

---
 include/stokes_coefficients.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index f2c3f1f..5ba9574 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -133,7 +133,7 @@ public:
   /** Constructor given degree, order, GM and radius R */
   StokesCoeffs(int n, int m=-1, double GM=::iers2010::GMe, double Re=::iers2010::Re)
       : _GM(GM), _Re(Re), _cnormalized(true), m_degree(n), 
-        m_order((m > 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
+        m_order((m >= 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
 
   /* @brief Resize to new degree/order, deleting currrent data.
    *
-- 
2.43.0


From 1a32280982a63161e67288c681464470d77391d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:14 +0000
Subject: [PATCH 04/23] fix: default-constructed StokesCoeffs has storage for
 its degree-0 term

---
 include/stokes_coefficients.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 5ba9574..f53be46 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -128,7 +128,7 @@ public:
   /** Default constructor */
   StokesCoeffs() noexcept
       : _GM(::iers2010::GMe), _Re(::iers2010::Re), _cnormalized(true), m_degree(0),
-        m_order(0), _Cnm{0, 0}, _Snm{0, 0} {}
+        m_order(0), _Cnm{1, 1}, _Snm{1, 1} {}
 
   /** Constructor given degree, order, GM and radius R */
   StokesCoeffs(int n, int m=-1, double GM=::iers2010::GMe, double Re=::iers2010::Re)
-- 
2.43.0


From 47e09f62c3fb2f28f0d9286281bfcdaf7550bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:14 +0000
Subject: [PATCH 05/23] fix: StokesCoeffs::scale also scales degree-0 sets

---
 include/stokes_coefficients.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index f53be46..0c84c7c 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -199,10 +199,8 @@ public:
 
   /** scale the Cnm and Snm coefficients */
   void scale(double factor) noexcept {
-    if (m_degree) {
-      _Cnm.multiply(factor);
-      _Snm.multiply(factor);
-    }
+    _Cnm.multiply(factor);
+    _Snm.multiply(factor);
   }
 
   /** get the Cnm coefficient */
-- 
2.43.0


From c5f112ddf379c1ca485b26177e39a62ef6718842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:14 +0000
Subject: [PATCH 06/23] fix: StokesCoeffs::from_anm sets S(n,0) to zero

---
 include/stokes_coefficients.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 0c84c7c..1caa935 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -281,6 +281,7 @@ public:
     if (max_order<0) max_order = anm.rows()-1;
     int max_degree = anm.rows()-1;
     StokesCoeffs cs(max_degree, max_order);
+    cs.clear(); /* S(n,0) are not stored in anm */
     for (int m = 0; m <= max_degree; m++) {
         for (int l=0; l<m; l++) {
           cs.S(m,l+1) = anm(l,m);
-- 
2.43.0


From afff85c1541a59387246d9b7dc873c15bddfab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 07/23] fix: Legendre coefficient factors do not overflow int
 at high degree

---
 src/lib/gravity/forward_column_alf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index 2e7731b..ce88515 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -3,17 +3,17 @@
 #include <cmath>
 
 namespace {
-inline double anm(int n, int m) noexcept {
+inline double anm(long n, long m) noexcept {
   return std::sqrt( (double)((2*n-1)*(2*n+1)) / (double)((n-m)*(n+m)) );
 }
 
-inline double bnm(int n, int m) noexcept {
+inline double bnm(long n, long m) noexcept {
   long b1 = (2*n+1)*(n+m-1)*(n-m-1);
   long b2 = (n-m)*(n+m)*(2*n-3);
   return std::sqrt( (double)b1 / (double)b2 );
 }
 
-inline double fnm(int n, int m) noexcept {
+inline double fnm(long n, long m) noexcept {
   long f1 = (n * n - m * m) * (2 * n + 1);
   long f2 = 2 * n - 1;
   return std::sqrt((double)f1 / (double)f2);
-- 
2.43.0


From 4fd49f19dbf9401561f01603899d880c8ac11e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 08/23] fix: Legendre functions do not write past the last
 column or beyond degree 0

---
 src/lib/gravity/forward_column_alf.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index ce88515..e3fcb2c 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -33,7 +33,7 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0) P(1, 1) = std::sqrt(3e0) * u;
 
   /* loop through columns, m=[0,max_order) */
   for (int m = 0; m < max_order; m++) {
@@ -54,7 +54,7 @@ int dso::normalised_associated_legendre_functions(
   /* last column, m=max_order */
   int m = max_order;
   double *__restrict__ pmm = P.column(m);
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
+  if (m < max_degree) pmm[1] = anm(m + 1, m) * t * pmm[0];
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
@@ -77,7 +77,7 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0) P(1, 1) = std::sqrt(3e0) * u;
 
   const double uinv = 1e0/u;
   /* loop through columns, m=[0,max_order) */
@@ -108,8 +108,10 @@ int dso::normalised_associated_legendre_functions(
   /* sectorial of derivative, n=m */
   dpmm[0] = m * (t/u) * pmm[0];
   /* first value from sectorial, n=m+1*/
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
-  dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  if (m < max_degree) {
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
+    dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  }
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
-- 
2.43.0


From a740b0ceb17e9d6ef086d3853f24f52e623fd2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 09/23] fix: spherical harmonics scratch space holds degree
 max_degree+2

---
 include/gravity.hpp                           |  4 ++--
 .../sh_cunningham_normalized_gradient.cpp     | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/gravity.hpp b/include/gravity.hpp
index 6a5f82a..3be1e71 100644
--- a/include/gravity.hpp
+++ b/include/gravity.hpp
@@ -136,11 +136,11 @@ int normalised_associated_legendre_functions(
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2).
+ *                matrix off dimensions at least (max_degree+3, max_degree+3).
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @return        Anything other than zero denotes an error.
diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index d349050..2adea1c 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -65,9 +65,9 @@ struct NormalizedLegendreFactors {
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  */
 int sh2gradient_cunningham_impl(
     const dso::StokesCoeffs &cs, const Eigen::Matrix<double, 3, 1> &r,
@@ -89,10 +89,10 @@ int sh2gradient_cunningham_impl(
   assert(cs.max_degree() >= cs.max_order());
   assert(max_degree <= cs.max_degree());
   assert(max_order <= cs.max_order());
-  assert(W.rows() >= max_degree + 2);
-  assert(W.cols() >= max_degree + 2);
-  assert(M.rows() >= max_degree + 2);
-  assert(M.cols() >= max_degree + 2);
+  assert(W.rows() >= max_degree + 3);
+  assert(W.cols() >= max_degree + 3);
+  assert(M.rows() >= max_degree + 3);
+  assert(M.cols() >= max_degree + 3);
 #endif
 
   /* Factors up to degree/order MAX_SIZE_FOR_ALF_FACTORS. Constructed only on
@@ -426,18 +426,18 @@ int dso::sh2gradient_cunningham(
   int delete_mem_pool[] = {0, 0};
   if (!W) {
     W = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[0] = 1;
   }
   if (!M) {
     M = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[1] = 1;
   }
 
   /* check scratch space */
-  if ((W->rows() < max_degree + 2) || (W->cols() < max_degree + 2) ||
-      (M->rows() < max_degree + 2) || (M->cols() < max_degree + 2)) {
+  if ((W->rows() < max_degree + 3) || (W->cols() < max_degree + 3) ||
+      (M->rows() < max_degree + 3) || (M->cols() < max_degree + 3)) {
     fprintf(stderr,
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
-- 
2.43.0


From 63ec0a063b890b36d41e5468fb418b180c6bb9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 10/23] fix: gravity gradient is complete when the order is
 below the degree

---
 .../gravity/sh_cunningham_normalized_gradient.cpp    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 2adea1c..59d4cac 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -148,10 +148,20 @@ int sh2gradient_cunningham_impl(
     }
 
     {
-      /* well, we've left the lst term uncomputed */
+      /* well, we've left the last column uncomputed */
       const int m = order + 2;
       M(m, m) = F.f1(m, m) * (x * M(m - 1, m - 1) - y * W(m - 1, m - 1));
       W(m, m) = F.f1(m, m) * (y * M(m - 1, m - 1) + x * W(m - 1, m - 1));
+
+      /* if order < degree, it has more elements than the diagonal one */
+      if (m < degree + 2) {
+        M(m + 1, m) = F.f1(m + 1, m) * z * M(m, m);
+        W(m + 1, m) = F.f1(m + 1, m) * z * W(m, m);
+      }
+      for (int n = m + 2; n <= degree + 2; n++) {
+        M(n, m) = F.f1(n, m) * z * M(n - 1, m) + F.f2(n, m) * rr * M(n - 2, m);
+        W(n, m) = F.f1(n, m) * z * W(n - 1, m) + F.f2(n, m) * rr * W(n - 2, m);
+      }
     }
 
     //M.multiply(1e-280);
-- 
2.43.0


From 3108192ae2a5ca9e1636d3d18bab28b59aa9292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 11/23] fix: expansion of order zero does not add the terms of
 order one

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 59d4cac..6834931 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -260,7 +260,7 @@ int sh2gradient_cunningham_impl(
   } /* loop over m */
 
   /* order m = 1 (begin summation from smaller terms) */
-  for (int n = degree; n >= 1; --n) {
+  for (int n = (order > 0) ? degree : 0; n >= 1; --n) {
     const int m = 1;
     {
       /* acceleration
-- 
2.43.0


From a2fc596c85fd7d485ee0abab92253f982226c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:13 +0000
Subject: [PATCH 12/23] fix: spherical harmonics requests of unsupported degree
 fail with an error and nothing leaks

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 6834931..ba69055 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -82,7 +82,7 @@ int sh2gradient_cunningham_impl(
             "[ERROR] (Static) Size for NormalizedLegendreFactors must be "
             "augmented to perform computation (traceback: %s)\n",
             __func__);
-    assert(false);
+    return 1;
   }
 
 #ifdef DEBUG
@@ -452,6 +452,10 @@ int dso::sh2gradient_cunningham(
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
             __func__);
+    if (delete_mem_pool[0])
+      delete W;
+    if (delete_mem_pool[1])
+      delete M;
     return 1;
   }
 
-- 
2.43.0


From d9bf4a6402aba37faa1f4d750abb4e751c58ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 13/23] fix: grid nodes with leading X axis: row of a node
 index and upper right corner

---
 include/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 777c8f7..786a46e 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -48,7 +48,7 @@ private:
     if constexpr (LeadingAxis == GridAxis::X) {
       idx_br = idx_bl + mypts;
       idx_tl = idx_bl + 1;
-      idx_tr = idx_tl + 1;
+      idx_tr = idx_br + 1;
     } else {
       idx_br = idx_bl + 1;
       idx_tl = idx_bl + mxpts;
@@ -84,7 +84,7 @@ public:
   Node xyindex2node(long index) const noexcept {
     if constexpr (LeadingAxis == GridAxis::X) {
       long xi = index / mypts;
-      long yi = index - xi * mxpts;
+      long yi = index - xi * mypts;
       return Node{xi * mxstep + mxstart, yi * mystep + mystart};
     } else {
       int yi = index / mxpts;
-- 
2.43.0


From bd927fac198f9d80f53c6046f0aeefa8446c3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:56 +0000
Subject: [PATCH 14/23] fix: neighbours of a point outside the grid are
 reported as -1

---
 include/grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 786a46e..5db74c4 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -96,8 +96,10 @@ public:
   void surrounding_nodes(double x, double y, long &idx_bl, long &idx_br,
                          long &idx_tl, long &idx_tr) const noexcept {
     idx_bl = line(x, y);
-    if (idx_bl < 0)
+    if (idx_bl < 0) {
       idx_bl = idx_br = idx_tl = idx_tr = -1;
+      return;
+    }
     surrounding_nodes(idx_bl, idx_br, idx_tl, idx_tr);
   }
 
-- 
2.43.0


From f2e7d54c44a10d96b0bfbf42511fa458139e8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:08 +0000
Subject: [PATCH 15/23] fix: rates of the lunisolar arguments are the
 derivatives of their polynomials (per Julian century)

---
 include/fundarg.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/fundarg.hpp b/include/fundarg.hpp
index 1dda1fd..06aa281 100644
--- a/include/fundarg.hpp
+++ b/include/fundarg.hpp
@@ -70,12 +70,13 @@ inline double fal03(double t) noexcept {
 /* @brief Time derivative of mean anomaly of the Moon, i.e. d(fal)/dTT
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return derivative of mean anomaly of the Moon, [rad/day]
+ * @return derivative of mean anomaly of the Moon, [rad/century]
  */
 inline double dfal03(double t) noexcept {
   const double a =
       dso::sec2rad(1717915923.2178e0 +
-                   t * (31.8792e0 + t * (0.051635e0 + t * (-0.00024470e0))));
+                   t * (2e0 * 31.8792e0 +
+                        t * (3e0 * 0.051635e0 + t * (4e0 * -0.00024470e0))));
   return a;
 }
 
@@ -100,12 +101,13 @@ inline double falp03(double t) noexcept {
 /* @brief Derivative of mean anomaly of the Sun, i.e. d(flap)/dTT
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return derivative of mean anomaly of the Sun, [rad/day]
+ * @return derivative of mean anomaly of the Sun, [rad/century]
  */
 inline double dfalp03(double t) noexcept {
   const double a =
       dso::sec2rad(129596581.0481e0 +
-                   t * (-0.5532e0 + t * (0.000136e0 + t * (-0.00001149e0))));
+                   t * (2e0 * (-0.5532e0) +
+                        t * (3e0 * 0.000136e0 + t * (4e0 * -0.00001149e0))));
   return a;
 }
 
@@ -131,12 +133,13 @@ inline double faf03(double t) noexcept {
  *  the ascending node, i.e. d(faf)/dTT
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return dF/dTT, in [rad/day] 
+ * @return dF/dTT, in [rad/century] 
  */
 inline double dfaf03(double t) noexcept {
   const double a =
       dso::sec2rad(1739527262.8478e0 +
-                   t * (-12.7512e0 + t * (-0.001037e0 + t * (0.00000417e0))));
+                   t * (2e0 * (-12.7512e0) +
+                        t * (3e0 * (-0.001037e0) + t * (4e0 * 0.00000417e0))));
   return a;
 }
 
@@ -165,12 +168,13 @@ inline double fad03(double t) noexcept {
  * makes no significant difference.
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return  d(D)/dTT in [rad/day]
+ * @return  d(D)/dTT in [rad/century]
  */
 inline double dfad03(double t) noexcept {
   const double a =
       dso::sec2rad(1602961601.2090e0 +
-                   t * (-6.3706e0 + t * (0.006593e0 + t * (-0.00003169e0))));
+                   t * (2e0 * (-6.3706e0) +
+                        t * (3e0 * 0.006593e0 + t * (4e0 * -0.00003169e0))));
   return a;
 }
 
@@ -196,12 +200,13 @@ inline double faom03(double t) noexcept {
  * d(Ω)dTT.
  *
  * @param[in] t Julian centuries since J2000.0 [TT] or [TDB]
- * @return d(Ω)/dTT in [rad/day]
+ * @return d(Ω)/dTT in [rad/century]
  */
 inline double dfaom03(double t) noexcept {
   const double a =
       dso::sec2rad(-6962890.5431e0 +
-                   t * (7.4722e0 + t * (0.007702e0 + t * (-0.00005939e0))));
+                   t * (2e0 * 7.4722e0 +
+                        t * (3e0 * 0.007702e0 + t * (4e0 * -0.00005939e0))));
   return a;
 }
 
-- 
2.43.0


From c920ed19ea7c08da99c2b05822ab9ccc8902a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:28 +0000
Subject: [PATCH 16/23] fix: epoch overload of dfaf03 returns the rate, not the
 argument

---
 include/fundarg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fundarg.hpp b/include/fundarg.hpp
index 06aa281..228113d 100644
--- a/include/fundarg.hpp
+++ b/include/fundarg.hpp
@@ -372,7 +372,7 @@ inline double faf03(const dso::MjdEpoch &tt) noexcept {
 
 /* @brief Overload of dfaf03 using a MjdEpoch */
 inline double dfaf03(const dso::MjdEpoch &tt) noexcept {
-  return iers2010::faf03(tt.jcenturies_sinceJ2000());
+  return iers2010::dfaf03(tt.jcenturies_sinceJ2000());
 }
 
 /* @brief Overload of fad03 using a MjdEpoch */
-- 
2.43.0


From f4a74870bb8c09feea84c6c32a55ee5825cf8996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:28 +0000
Subject: [PATCH 17/23] fix: rate of GMST is the derivative of GMST

---
 src/lib/iau/dgmst.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/iau/dgmst.cpp b/src/lib/iau/dgmst.cpp
index 47e1829..4d34bff 100644
--- a/src/lib/iau/dgmst.cpp
+++ b/src/lib/iau/dgmst.cpp
@@ -6,12 +6,14 @@ double dso::dgmst(const dso::MjdEpoch &tt) noexcept {
   const double b =
       dso::sec2rad(
           4612.156534e0 +
-          (1.3915817e0 +
-           (-0.00000044e0 + (-0.000029956e0 + (-0.0000000368e0) * t) * t) * t) *
+          (2e0 * 1.3915817e0 +
+           (3e0 * -0.00000044e0 +
+            (4e0 * -0.000029956e0 + (5e0 * -0.0000000368e0) * t) * t) *
+               t) *
               t) /
       36525e0;
   constexpr const double t2pi = dso::detail::AngleUnitTraits<
       dso::detail::AngleUnit::Radians>::full_circle();
-  const double a = t2pi * 2e0 * 1.00273781191135448;
+  const double a = t2pi * 1.00273781191135448;
   return a + b;
 }
-- 
2.43.0


From eed73bcdf05637065d17c34bdd647f902317b08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:47 +0000
Subject: [PATCH 18/23] fix: interpolating an empty EOP series reads no record

---
 src/lib/eop/approx_dut1.cpp            | 4 ++++
 src/lib/eop/lagrange_interpolation.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index 31ab45a..4522ec8 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -3,6 +3,10 @@
 dso::EopSeries::EopInterpolationResult
 dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
                             double &dut1) const noexcept {
+  /* nothing to interpolate or copy in an empty series */
+  if (mvec.empty())
+    return EopInterpolationResult::OutOfBoundsPrior;
+
   /* find a matching interval (try for last used iterator first) */
   auto it = last_it;
   {
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index 83b631c..d45efa6 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -7,6 +7,10 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
                             int degree) const noexcept {
   assert(degree <= MAX_POLY_INTERPOLATION_DEGREE);
 
+  /* nothing to interpolate or copy in an empty series */
+  if (mvec.empty())
+    return EopInterpolationResult::OutOfBoundsPrior;
+
   /* find a matching interval (try for last used iterator first) */
   auto it = last_it;
   {
-- 
2.43.0


From bfd28eb4f066f6631d53d757c80529c63c4ef277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:21 +0000
Subject: [PATCH 19/23] fix: EOP interpolation no longer looks at a remembered
 iterator that insertions, clearing and copying invalidate

---
 include/eop.hpp                        | 14 --------------
 src/lib/eop/approx_dut1.cpp            | 14 ++------------
 src/lib/eop/lagrange_interpolation.cpp | 14 ++------------
 src/lib/eop/parse_iers_c04.cpp         |  1 -
 4 files changed, 4 insertions(+), 39 deletions(-)

diff --git a/include/eop.hpp b/include/eop.hpp
index 062def8..51aa6c9 100644
--- a/include/eop.hpp
+++ b/include/eop.hpp
@@ -186,13 +186,6 @@ class EopSeries {
   static constexpr int MAX_POLY_INTERPOLATION_DEGREE = 9;
   /** Vector of EopRecords stored in series */
   std::vector<EopRecord> mvec{};
-  /** Last used index in mvec.
-   * Speed-up interpolation when requesting interpolation results for epochs
-   * within one day (e.g. every N seconds). This is the most often use-case.
-   * This is a mutable member, i.e. changing values in here does not actually
-   * 'change' the instance; it is only used to hunt interpolation indexes.
-   */
-  mutable cvit last_it{mvec.end()};
   /** Scratch/Workspace memoty to use in interpolation.
    * This is a mutable member, i.e. changing values in here does not actually
    * 'change' the instance.
@@ -288,16 +281,9 @@ public:
    * Warning! The vector of EopRecord should always be chronologically ordered.
    * If you use this method be sure that the entry you are pushing is indeed
    * later that then last current entry in the table.
-   *
-   * Warning! This function may invalidate the last_it pointer. Please, reset
-   * it to the correct index after the call.
    */
   void push_back(const EopRecord &r) noexcept { return mvec.push_back(r); }
 
-  void reset_vec_iterator(int offset = -1) noexcept {
-    last_it = (offset < 0) ? mvec.end() : mvec.begin() + offset;
-  }
-
   /** Interpolate EOPs using the data in Series, for a given epoch (TT).
    *
    * a. In case \p t is prior to the first entry in the instant's series, i.e.
diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index 4522ec8..25697e1 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -7,18 +7,8 @@ dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
   if (mvec.empty())
     return EopInterpolationResult::OutOfBoundsPrior;
 
-  /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
-  last_it = it;
+  /* find the matching interval, [it-1, it) */
+  auto it = this->upper_bound(t);
 
   /* given date is prior to first date in EOP series */
   if (it == mvec.begin()) {
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index d45efa6..814388c 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -11,18 +11,8 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
   if (mvec.empty())
     return EopInterpolationResult::OutOfBoundsPrior;
 
-  /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
-  last_it = it;
+  /* find the matching interval, [it-1, it) */
+  auto it = this->upper_bound(t);
 
   /* given date is prior to first date in EOP series */
   if (it == mvec.begin()) {
diff --git a/src/lib/eop/parse_iers_c04.cpp b/src/lib/eop/parse_iers_c04.cpp
index d6178d0..b9ea732 100644
--- a/src/lib/eop/parse_iers_c04.cpp
+++ b/src/lib/eop/parse_iers_c04.cpp
@@ -14,6 +14,5 @@ int dso::parse_iers_C04(const char *c04fn, const MjdEpoch &start_tt,
   else
     error = dso::details::parse_iers_C0414(c04fn, start_tt, end_tt, eops);
 
-  eops.reset_vec_iterator();
   return error;
 }
-- 
2.43.0


From 4c6540fd70669d74ce7c7a76534e5157667ac7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:29 +0000
Subject: [PATCH 20/23] fix: room for degree 360 in the ocean pole tide factors

The array of (1+k'n)/(2n+1) factors held 360 elements but is indexed by the
degree, 0 to 360 inclusive: a request of the full model wrote (and read) past
its end.
---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index 6a24af7..c910691 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -218,7 +218,7 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   const double freal = m1 * g2_real + m2 * g2_imag;
   const double fimag = m2 * g2_real - m1 * g2_imag;
 
-  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002];
+  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002 + 1];
   double *__restrict__ knfac = &(knfac_arr[0]);
 
   /* order: m = 0; compute kn factors */
-- 
2.43.0


From 7a60be431f27082303fc528efa2ad2dcd14818b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 21/23] fix: tide waves of lower degree or order than the
 model's coefficients

Both models hold coefficients as large as the largest wave of the atlas; adding
a smaller wave tripped an assertion (or read out of bounds).
---
 .../atm_tides_geopotential.cpp                | 11 ++++++----
 src/lib/ocean_tide/ocean_tide_potential.cpp   | 22 ++++++++++++-------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
index d282988..46b2211 100644
--- a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
@@ -22,10 +22,13 @@ int dso::AtmosphericTide::stokes_coeffs(
                        wave.wave().doodson().pifactor() * dso::DPI/2;
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    /* the wave may be of lower degree and/or order than the instance's coeffs */
+    const int rows = wave.stokes_cos().max_degree() + 1;
+    const int cols = wave.stokes_cos().max_order() + 1;
+    mcs.Cnm() += wave.stokes_cos().Cnm().reduced_view(rows, cols) * carg +
+                 wave.stokes_sin().Cnm().reduced_view(rows, cols) * sarg;
+    mcs.Snm() += wave.stokes_cos().Snm().reduced_view(rows, cols) * carg +
+                 wave.stokes_sin().Snm().reduced_view(rows, cols) * sarg;
   }
 
   return 0;
diff --git a/src/lib/ocean_tide/ocean_tide_potential.cpp b/src/lib/ocean_tide/ocean_tide_potential.cpp
index fc9e53c..4fab120 100644
--- a/src/lib/ocean_tide/ocean_tide_potential.cpp
+++ b/src/lib/ocean_tide/ocean_tide_potential.cpp
@@ -22,10 +22,13 @@ int dso::OceanTide::stokes_coeffs_impl(
     const double arg = wave.wave().doodson().argument(f);
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    /* the wave may be of lower degree and/or order than the instance's coeffs */
+    const int rows = wave.stokes_cos().max_degree() + 1;
+    const int cols = wave.stokes_cos().max_order() + 1;
+    mcs.Cnm() += wave.stokes_cos().Cnm().reduced_view(rows, cols) * carg +
+                 wave.stokes_sin().Cnm().reduced_view(rows, cols) * sarg;
+    mcs.Snm() += wave.stokes_cos().Snm().reduced_view(rows, cols) * carg +
+                 wave.stokes_sin().Snm().reduced_view(rows, cols) * sarg;
   }
 
   return 0;
@@ -75,10 +78,13 @@ int dso::OceanTide::stokes_coeffs_with_admittance_impl(
   const double *__restrict__ fcos = factorCos.data();
   const double *__restrict__ fsin = factorSin.data();
   for (const auto &wave : atlas().waves()) {
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * (*fcos) + wave.stokes_sin().Cnm() * (*fsin);
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * (*fcos) + wave.stokes_sin().Snm() * (*fsin);
+    /* the wave may be of lower degree and/or order than the instance's coeffs */
+    const int rows = wave.stokes_cos().max_degree() + 1;
+    const int cols = wave.stokes_cos().max_order() + 1;
+    mcs.Cnm() += wave.stokes_cos().Cnm().reduced_view(rows, cols) * (*fcos) +
+                 wave.stokes_sin().Cnm().reduced_view(rows, cols) * (*fsin);
+    mcs.Snm() += wave.stokes_cos().Snm().reduced_view(rows, cols) * (*fcos) +
+                 wave.stokes_sin().Snm().reduced_view(rows, cols) * (*fsin);
     // printf("fcos = %.12e fsin = %.12e\n", *fcos, *fsin);
     ++fcos;
     ++fsin;
-- 
2.43.0


From 6395a9d92a38505f532b02d56460236ad23d1028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 22/23] fix: move assignment of an ocean tide model left a
 dangling admittance model

---
 include/ocean_tide.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index a205be1..217bb5b 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -193,11 +193,11 @@ public:
 
   /** @brief Move assignment operator */
   OceanTide &operator=(OceanTide &&ot) noexcept {
-    matlas = std::move(ot.matlas);
-    mcs = std::move(ot.mcs);
-    if (gmodel)
-      delete gmodel;
-    if (ot.gmodel) {
+    if (this != &ot) {
+      matlas = std::move(ot.matlas);
+      mcs = std::move(ot.mcs);
+      if (gmodel)
+        delete gmodel;
       gmodel = ot.gmodel;
       ot.gmodel = nullptr;
     }
-- 
2.43.0


From f66635df51d65e22570ae16ddab720f4ca98278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:19 +0000
Subject: [PATCH 23/23] fix: appending an atmospheric tide wave never shrinks
 the accumulated coefficients

---
 src/lib/atmospheric_tides/atm_tides_append_wave.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
index 44b3766..1278a08 100644
--- a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
@@ -1,4 +1,5 @@
 #include "atmospheric_tides.hpp"
+#include <algorithm>
 #include <stdexcept>
 
 int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
@@ -43,10 +44,8 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
 
   /* do we need to re-size the instance's stokes coeffs size? */
   if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
-  }
-  if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
+    mcs.cresize(std::max(mdeg_collected, mcs.max_degree()),
+                std::max(mord_collected, mcs.max_order()));
   }
 
   return 0;
-- 
2.43.0

