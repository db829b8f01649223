From 60c2fe114d99705f3521a0afa7a9cd0504c0180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 01/71] fix: multiply(vector, matrix) always aborted

Rows of an NTL matrix have fixed length, so swapping one out raises an error.
---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 1d9c46a..cb7e448 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -120,7 +120,7 @@ void multiply(Vec<zz_pX>& c, const Vec<zz_pX>& a, const Mat<zz_pX>& b, long is_p
     amat[0] = a;
     Mat<zz_pX> cmat;
     multiply(cmat, amat, b, is_prime);
-    c.swap(cmat[0]);
+    c = cmat[0];
 }
 
 
-- 
2.43.0


From 0320396a68d4e4521384ed92ffbcf6d30424cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 02/71] fix: multiply_evaluate_geometric with a zero operand
 returned wrong dimensions

---
 .../src/mat_lzz_pX_multiply_evaluate_geometric.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
index 8b380f2..e9a2b05 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
@@ -22,7 +22,7 @@ void multiply_evaluate_geometric(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat
     // if a or b is zero, return
     if (dA < 0 || dB < 0)
     {
-        c.SetDims(s, t);
+        c.SetDims(s, u);
         clear(c);
         return;
     }
-- 
2.43.0


From df29e8bca4de0d08e898170b33e7c79b45e77fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:29 +0000
Subject: [PATCH 03/71] fix: FFT_matmul3 products wrote through a null pointer
 for one-column operands

---
 .../src/mat_lzz_pX_middle_product_evaluate_FFT.cpp               | 1 +
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
index 23ba4b0..2ada6e5 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
@@ -569,6 +569,7 @@ void middle_product_evaluate_FFT_matmul3(Mat<zz_pX> & b, const Mat<zz_pX> & a, c
         tmp.swap(mat_valA[j]);
     }
 
+    R.tbl[0].SetLength(len); // the last swap above may have left it unallocated
     b.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index c60bd67..9ff2e72 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -511,6 +511,7 @@ void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
     }
 
     // interpolate c from the values in mat_valA
+    R.tbl[0].SetLength(n); // the last swap above may have left it unallocated
     c.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
-- 
2.43.0


From 00142acd36f40472970ef3d462b06c172a812a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 04/71] fix: overflow in univariate middle product with delayed
 reductions

When dB is small and dA is large, more than KARX products are accumulated.
---
 .../lzz_pX_middle_product/src/lzz_pX_middle_product.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
index 57efc8f..e585ca3 100644
--- a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
+++ b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
@@ -29,6 +29,10 @@ void tPlainMul2(zz_p *b, long sb, const zz_p *a, long sa, const zz_p *c, long sc
     long p = zz_p::modulus();
     mulmod_t pinv = PrepMulMod(p);
 
+    // callers decide on use_long for sums of at most KARX products
+    if (sa > KARX)
+        use_long = (p < NTL_SP_BOUND/sa && p*sa < NTL_SP_BOUND/p);
+
     if (use_long == 0)
     {
         for (long i = 0; i < sb; i++)
-- 
2.43.0


From f5c381e2bc95563387eebdf16c9e8938b1bd6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 05/71] fix: matrix middle product with zero left operand

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index 0f4e11d..ce6ef44 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -20,6 +20,12 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
     const long degA = deg(a);
+    if (degA < 0)
+    {
+        b.SetDims(a.NumRows(), c.NumCols());
+        clear(b);
+        return;
+    }
     if (degA < dA)
     {
         Mat<zz_pX> cc;
-- 
2.43.0


From 26c18bf66603ed31997bef5e35b22eacce951040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:21 +0000
Subject: [PATCH 06/71] fix: middle_product_3_primes could use too few primes
 when dA > dB

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 8067db4..7b9a8ea 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -332,7 +332,8 @@ void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> &
 /*------------------------------------------------------------*/
 void middle_product_3_primes(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c, long dA, long dB)
 {
-    lzz_pX_3_primes primes(a.NumCols(), dA, dB);
+    // c has degree <= dA+dB: each coefficient is a sum of ncols*(dA+1) products
+    lzz_pX_3_primes primes(a.NumCols(), dA, dA + dB);
     const long nb = primes.nb();
 
     if (nb == 1)
-- 
2.43.0


From bd9a93f724b0b89324297dff73189cc2369723f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:04 +0000
Subject: [PATCH 07/71] fix: in-place multiply ignored is_prime

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index cb7e448..1018969 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -24,7 +24,7 @@ void multiply(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b, long i
     if (&c == &a || &c == &b)
     {
         Mat<zz_pX> c2;
-        multiply(c2, a, b);
+        multiply(c2, a, b, is_prime);
         c.swap(c2);
         return;
     }
-- 
2.43.0


From 7a6a4549aa449122fc4d0c5d99aaf79ccc719b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:24 +0000
Subject: [PATCH 08/71] fix: multiply_waksman aborted for even composite moduli

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
index 157e245..d8e8b4f 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
@@ -11,7 +11,7 @@ void multiply_waksman(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b
 {
     const long n = a.NumCols();
 
-    if (zz_p::modulus() == 2 || n < 2)
+    if (zz_p::modulus() % 2 == 0 || n < 2) // 2 must be invertible
     {
         multiply_naive(c, a, b);
         return;
-- 
2.43.0


From bd2e64321b295c4a3dacf1f84b0a33c94eb6bd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:42 +0000
Subject: [PATCH 09/71] fix: get_lmultiplier used evaluation over fields with
 too few points

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index ae8fe4c..4cfbacb 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -646,7 +646,9 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
     }
     else
     {
-        if ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150)
+        // evaluation requires sufficiently many points in the field
+        if (zz_p::modulus() > 2 * (dA + dB + 1) &&
+            ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150))
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_dense(a, dB));
         else
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
-- 
2.43.0


From 6372bd7c81df6d2cc62495c2b484a691a3bcc900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:36 +0000
Subject: [PATCH 10/71] fix: truncRow and truncCol dropped the other
 rows/columns when not in place

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index dbf67d7..bd45c81 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -255,14 +255,16 @@ void trunc(Mat<zz_pX>& x, const Mat<zz_pX>& a, long n)
 
 void truncRow(Mat<zz_pX>& x, const Mat<zz_pX>& a, long r, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long c = 0; c < x.NumCols(); ++c)
         trunc(x[r][c], a[r][c], n);
 }
 
 void truncCol(Mat<zz_pX>& x, const Mat<zz_pX>& a, long c, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long r = 0; r < x.NumRows(); ++r)
         trunc(x[r][c], a[r][c], n);
 }
-- 
2.43.0


From 4c5976a2ee6a9e377e2df228e6089449e932a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:36 +0000
Subject: [PATCH 11/71] fix: conversion to matrix coefficients read past the
 end of low-degree entries

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index bd45c81..eb3e827 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -573,7 +573,7 @@ void conv(Vec<Mat<zz_p>> & matp, const Mat<zz_pX> & pmat)
         for (long i = 0; i < m; ++i)
             for (long j = 0; j < n; ++j)
                 for (long kk = 0; kk < k_bound; ++kk)
-                    matp[k+kk][i][j] = pmat[i][j][k+kk];
+                    matp[k+kk][i][j] = coeff(pmat[i][j], k+kk);
     }
 }
 
-- 
2.43.0


From 55360a3dcf203833dcb94ca5e0e1d589f9a4c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:20 +0000
Subject: [PATCH 12/71] fix: add_LeftShift returned wrong or unnormalised
 results when b is zero or aliased

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index cebac40..406a54b 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -443,9 +443,21 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
 
 /** Computes `c = a + (b << k)`, where the left shift means multiplication by
  * `X^k`. The integer `k` must be nonnegative. The OUT parameter `c` may alias
- * `a` but not `b`. */
+ * `a` or `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
+   if (IsZero(b))
+   {
+       c = a;
+       return;
+   }
+   if (&c == &b)
+   {
+       const zz_pX bb(b);
+       add_LeftShift(c, a, bb, k);
+       return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 0402e60f766478f3f05f1c89cc9f5267e8845cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:20 +0000
Subject: [PATCH 13/71] fix: column partial linearization aborted on low-degree
 entries, parlin products reused old output contents

---
 .../mat_lzz_pX_extra/mat_lzz_pX_linearization.h      |  2 +-
 .../src/mat_lzz_pX_linearization.cpp                 | 12 +++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 7acfa64..6f90665 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -250,7 +250,7 @@ inline void right_parlin_multiply(
 {
     VecLong cdeg(b.NumCols());
     col_degree(cdeg, b);
-    right_parlin_multiply(c, a, b, deg(a), cdeg);
+    right_parlin_multiply(c, a, b, std::max<long>(0, deg(a)), cdeg);
 }
 
 /* c = trunc( trunc(a, dA+1)*b div x^dA, dB+1 )           */
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index dde7d1c..a5b3e45 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -116,7 +116,7 @@ VecLong column_partial_linearization(
     // parlin_degree[j-1]
     parlin_cols[0]=0;
     for (long j = 1; j < pmat.NumCols()+1; ++j)
-        parlin_cols[j] = parlin_cols[j-1] + ceil( (target_degree[j-1]+1.0) / (parlin_degree[j-1]+1) );
+        parlin_cols[j] = parlin_cols[j-1] + ceil( (std::max<long>(0,target_degree[j-1])+1.0) / (parlin_degree[j-1]+1) );
 
     // set dimensions of the partial linearization
     parlin.SetDims(pmat.NumRows(), parlin_cols[pmat.NumCols()]);
@@ -137,7 +137,7 @@ VecLong column_partial_linearization(
                 parlin[i][jj].normalize();
             }
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -194,7 +194,7 @@ VecLong column_partial_linearization(
                 parlin[i][jj].normalize();
             }
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -230,7 +230,8 @@ void right_parlin_multiply(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            clear(c[i][j]);
+            c[i][j].SetLength(std::max<long>(0, deg_a + column_degree[j] + 1));
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
@@ -272,7 +273,8 @@ void right_parlin_middle_product(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            clear(c[i][j]);
+            c[i][j].SetLength(std::max<long>(0, deg_a + target_degree[j] - d_inf + 1));
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-- 
2.43.0


From b976769e6549152ac6af6d5d6ee35be15248cb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:35 +0000
Subject: [PATCH 14/71] fix: parlin products reused stale coefficients; default
 parlin degree with zero columns

---
 ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h      | 4 ++--
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 6f90665..d2222b4 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -169,7 +169,7 @@ inline VecLong column_partial_linearization(
                                            )
 {
     long parlin_degree = std::accumulate(target_degree.begin(), target_degree.end(), 0);
-    parlin_degree = 1 + parlin_degree / target_degree.size();
+    parlin_degree = 1 + parlin_degree / (long)target_degree.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, target_degree);
 }
@@ -184,7 +184,7 @@ inline VecLong column_partial_linearization_cdeg(
     VecLong cdeg(pmat.NumCols());
     col_degree(cdeg, pmat);
     long parlin_degree = std::accumulate(cdeg.begin(), cdeg.end(), 0);
-    parlin_degree = 1 + parlin_degree / cdeg.size();
+    parlin_degree = 1 + parlin_degree / (long)cdeg.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, cdeg);
 }
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index a5b3e45..bb3b067 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -230,8 +230,8 @@ void right_parlin_multiply(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            clear(c[i][j]);
             c[i][j].SetLength(std::max<long>(0, deg_a + column_degree[j] + 1));
+            clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
@@ -273,8 +273,8 @@ void right_parlin_middle_product(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            clear(c[i][j]);
             c[i][j].SetLength(std::max<long>(0, deg_a + target_degree[j] - d_inf + 1));
+            clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
@@ -282,7 +282,7 @@ void right_parlin_middle_product(
                     c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
                 d_init += parlin_degree+1;
             }
-            //c[i][j].normalize(); // TODO remove?
+            c[i][j].normalize();
             c[i][j] >>= deg(a);  // precompute deg(a)
             trunc(c[i][j], c[i][j], dB+1);
         }
-- 
2.43.0


From dc77db62f71ccfc558fbc570c7ea3e93a9eeb1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:32 +0000
Subject: [PATCH 15/71] fix: is_col_popov read out of bounds for matrices with
 more rows than columns

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
index 3fe0a74..07c4519 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
@@ -818,7 +818,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
@@ -856,7 +856,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat, const VecLong & shift)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
-- 
2.43.0


From 4a6a558e37ad69a95bcb9000b291491580d59ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:39 +0000
Subject: [PATCH 16/71] fix: approximant_basis with default shift read out of
 bounds

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
index cadf63d..c376711 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
@@ -33,6 +33,8 @@ void approximant_basis(
     if (row_wise && not generic)
     {
         rdeg = shift;
+        if (shift.empty()) // default: uniform shift
+            rdeg.assign(pmat.NumRows(), 0);
         if (form<PolMatForm::POPOV)
         {
             appbas_iterative(appbas,pmat,order,rdeg);
-- 
2.43.0


From 28867e787f743248c0c700cb61ebe6dd8ad49ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:39 +0000
Subject: [PATCH 17/71] fix: generic 2n x n approximant bases at order 2
 returned unnormalised entries

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c041c3e..ca6d895 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -721,6 +721,7 @@ void mbasis_generic_2n_n_rescomp(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
@@ -1302,6 +1303,7 @@ void mbasis_generic_2n_n_resupdate(
                 clear(appbas[i][j][0]);
                 for (long k = 1; k < d; ++k)
                     appbas[i][j][k] = P11[k][imn][jmn];
+                appbas[i][j].normalize();
             }
         }
 
-- 
2.43.0


From 96be21b2d41393aac933f6137838c82bc7d4b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:39 +0000
Subject: [PATCH 18/71] fix: matrix_pade_generic_iterative aborted at order 3

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index ca6d895..5bc1903 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1756,6 +1756,13 @@ void matrix_pade_generic_iterative(
 
     if (odd_order) // order==2d+1: one more iteration
     {
+        if (d==1) // order==3: residuals and K0 were not prepared above
+        {
+            K0 = D2[1];
+            R_bot[1].SetDims(n,n);
+            R_bot[2].SetDims(n,n);
+        }
+
 #ifdef MATRIX_PADE_GEN_PROFILE
     tt = GetWallTime();
 #endif // MATRIX_PADE_GEN_PROFILE
-- 
2.43.0


From 7d238649f4c4f31339d5806f67cfa7710b993c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:39 +0000
Subject: [PATCH 19/71] fix: popov_mbasis_rescomp_generic did not return a
 Popov form when row degrees differ

---
 .../src/mat_lzz_pX_pmbasis_generic.cpp           | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 5bc1903..d416427 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -2378,17 +2378,15 @@ void popov_mbasis_rescomp_generic(
     // before that, change to Popov form
     // (this is the only difference with the "non-generic non-Popov" variant of
     // that algorithm)
-    // retrieve -rdeg - leading matrix  (only valid in this generic case!)
-    Mat<zz_p> L = coeffs_appbas[deg_appbas];
-    for (long i = 0; i < pmat.NumRows(); i++)
-        if (L[i][i] == 0)
-            L[i][i] = 1;
+    // retrieve -rdeg - leading matrix  (only valid in this generic case!):
+    // its column j is formed by the coefficients of degree rdeg[j]
+    Mat<zz_p> L(INIT_SIZE, m, m);
+    for (long i = 0; i < m; ++i)
+        for (long j = 0; j < m; ++j)
+            L[i][j] = coeffs_appbas[shift[j]][i][j];
     inv(L, L);
-    for (long k = 0; k < deg_appbas; k++)
+    for (long k = 0; k <= deg_appbas; ++k)
         mul(coeffs_appbas[k], L, coeffs_appbas[k]);
-    for (long i = 0; i < pmat.NumRows(); i++)
-        for (long j = 0; j < i; j++)
-            coeffs_appbas[deg_appbas][i][j] = 0;
     appbas = conv(coeffs_appbas);
 #ifdef MBASIS_PROFILE
     t_others += GetWallTime()-t_now;
-- 
2.43.0


From be09005d097d99e146d8a9eda30aac6531d7ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:44 +0000
Subject: [PATCH 20/71] fix: geometric multipoint evaluation with a single
 point reported the wrong point

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 0e4e253..15b8828 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -104,7 +104,7 @@ zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric(const zz_p& r, const zz_p
     if (n==1)
     {
         pts.SetLength(1);
-        mul(pts[0], s, r);
+        pts[0] = s;
     }
 
     // bad case: we have an FFT prime of low order
@@ -255,7 +255,7 @@ zz_p zz_pX_Multipoint_Geometric::get_q() const
 zz_p zz_pX_Multipoint_Geometric::get_s() const
 {
     if (n == 1)
-        return to_zz_p(1);
+        return pts[0];
     else
         return xs[1] / x[1];
 }
-- 
2.43.0


From 524bf8bd380342bd540124cc0f50c74da0becd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:30 +0000
Subject: [PATCH 21/71] fix: ZLS kernel bases missed rows and returned wrong
 shifts

The early-exit test accepted incomplete kernels (degree sums may agree while
the rank does not); the output shift missed diff_shift on two paths; the
interpolation variant called the fallback with a modified shift and geometric
evaluation with too few points; the residual slice could be empty.
---
 .../src/mat_lzz_pX_kernel.cpp                 | 75 ++++++++++++-------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ab06b2e..ae63874 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -467,21 +467,20 @@ void kernel_basis_zls_via_approximation(
     // number of non-kernel rows in the approximant basis
     const long m2 = rdeg2.size();
 
-    // if the sum of pivot degrees in the part of kernel basis computed is
-    // equal to one of the upper bounds (here, sum of row degrees of pmat for
-    // non-pivot rows), then we know that we have captured the whole kernel
+    // the rows found so far form a basis of the whole kernel exactly when there
+    // are m - rank(pmat) of them, i.e. when rank(pmat) == m2; since rank(pmat)
+    // <= m2, it is enough to have rank m2 at some point
     // --> this is often the case (e.g. in the generic situation mentioned
     // above), and testing this avoids going through a few multiplications and
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
-    long sum_matdeg = 0;
-    for (long i = 0; i < m2; ++i)
-        sum_matdeg += rdeg[rows_app_notker[i]];
-    long sum_kerdeg = 0;
-    for (long i = 0; i < m1; ++i)
-        sum_kerdeg += deg(appbas[rows_app_ker[i]][rows_app_ker[i]]);
-
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    bool early_exit = false;
+    if (m2 <= n)
+    {
+        Mat<zz_p> ev_pmat;
+        eval(ev_pmat, pmat, random_zz_p());
+        early_exit = (gauss(ev_pmat) == m2);
+    }
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
@@ -491,7 +490,9 @@ void kernel_basis_zls_via_approximation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
-        shift.swap(rdeg1);
+        shift.resize(m1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] = rdeg1[i]+diff_shift;
         return;
     }
 
@@ -505,7 +506,15 @@ void kernel_basis_zls_via_approximation(
 
     // compute residual:
     // pmat = trunc(trunc(approx, dA+1)*pmat div x^order, deg(pmat)+deg(approx)-order+1)
-    middle_product(pmat,approx,pmat,order,deg(pmat)+deg(approx)-order);
+    // (this is zero if deg(pmat)+deg(approx) < order)
+    const long deg_res = deg(pmat)+deg(approx)-order;
+    if (deg_res >= 0)
+        middle_product(pmat,approx,pmat,order,deg_res);
+    else
+    {
+        pmat.SetDims(m2, n);
+        clear(pmat);
+    }
 
     // pmat will be column-splitted into two submatrices of column dimension ~ n/2
     const long n1 = n/2;
@@ -538,7 +547,9 @@ void kernel_basis_zls_via_approximation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
-        shift.swap(rdeg1);
+        shift.resize(m1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] = rdeg1[i]+diff_shift;
         return;
     }
 
@@ -725,7 +736,8 @@ void kernel_basis_zls_via_interpolation(
     // choosing this order (with factor 2) is sufficient to ensure that the
     // interpolant basis captures the whole kernel when n <= m/2 and pmat is
     // sufficiently generic
-    const long order = 2 * ceil((double)rho / n) + 1;
+    // (geometric evaluation further requires order > deg(pmat))
+    const long order = std::max<long>(2 * ceil((double)rho / n) + 1, deg(pmat) + 1);
 
     // compute interpolant basis, along with shift-row degree and pivot degree
     // --> it does not necessarily capture the whole kernel; but does in two
@@ -733,6 +745,8 @@ void kernel_basis_zls_via_interpolation(
     zz_p r; // defining geometric points r^2, r^4, r^6...
     if (2*order >= zz_p::modulus()) // small field --> approximation
     {
+        for (long i = 0; i < m; ++i)
+            shift[i] += diff_shift;
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -741,6 +755,8 @@ void kernel_basis_zls_via_interpolation(
     if (IsZero(r))
     {
         std::cout << "Could not find element of sufficiently large order; field is probably too small for kernel via interpolation with such degrees --> calling the approximation version" << std::endl;
+        for (long i = 0; i < m; ++i)
+            shift[i] += diff_shift;
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -779,21 +795,20 @@ void kernel_basis_zls_via_interpolation(
     // number of non-kernel rows in the interpolant basis
     const long m2 = rows_int_notker.size();
 
-    // if the sum of pivot degrees in the part of kernel basis computed is
-    // equal to one of the upper bounds (here, sum of row degrees of pmat for
-    // non-pivot rows), then we know that we have captured the whole kernel
+    // the rows found so far form a basis of the whole kernel exactly when there
+    // are m - rank(pmat) of them, i.e. when rank(pmat) == m2; since rank(pmat)
+    // <= m2, it is enough to have rank m2 at some point
     // --> this is often the case (e.g. in the generic situation mentioned
     // above), and testing this avoids going through a few multiplications and
     // the two recursive calls (which only lead to the conclusion that there is
     // no new kernel row to be found)
-    long sum_matdeg = 0;
-    for (long i = 0; i < m2; ++i)
-        sum_matdeg += rdeg[rows_int_notker[i]];
-    long sum_kerdeg = 0;
-    for (long i = 0; i < m1; ++i)
-        sum_kerdeg += deg(intbas[rows_int_ker[i]][rows_int_ker[i]]);
-
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    bool early_exit = false;
+    if (m2 <= n)
+    {
+        Mat<zz_p> ev_pmat;
+        eval(ev_pmat, pmat, random_zz_p());
+        early_exit = (gauss(ev_pmat) == m2);
+    }
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
@@ -803,7 +818,9 @@ void kernel_basis_zls_via_interpolation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
-        shift.swap(rdeg1);
+        shift.resize(m1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] = rdeg1[i]+diff_shift;
         return;
     }
 
@@ -857,7 +874,9 @@ void kernel_basis_zls_via_interpolation(
         kerbas.SetDims(m1, m);
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
-        shift.swap(rdeg1);
+        shift.resize(m1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] = rdeg1[i]+diff_shift;
         return;
     }
 
-- 
2.43.0


From f8e8a172fd9aed36c121a5c37211016f0dec6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:30 +0000
Subject: [PATCH 22/71] fix: kernel_basis_generic returned non-kernel rows for
 odd dimensions, kept stale entries

---
 .../src/mat_lzz_pX_kernel.cpp                 | 40 +++++++++++++------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ae63874..cfb7259 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -1007,7 +1007,10 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
 #ifdef GENERIC_KER_PROFILE
         t = GetWallTime();
 #endif // GENERIC_KER_PROFILE
-        multiply(kerbas, kerbas2, kerbas);
+        if (d == 1)
+            kerbas.swap(kerbas2);
+        else
+            multiply(kerbas, kerbas2, kerbas);
 #ifdef GENERIC_KER_PROFILE
         t = GetWallTime()-t;
         std::cout << "\tmultiply ker, degrees " << deg(kerbas2) << "," << deg(kerbas) << " || time " << t << std::endl;
@@ -1049,15 +1052,16 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // be the generic kernel of the constant part [[A1], [A2], [V]].
         // Then the matrix
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [  0        K3       1]
         // where B = F[nn1:2*nn1, :] == A[nn1:2*nn1, :nn1]
         // and K1i == inverse(K1)
+        // and K3 == -v * inverse(B), for v the last row of F (if eps == 1)
         // is the Popov left kernel basis for F
         // -> it has the right rank
         // -> it is in Popov form
         // -> it has the right sum(rdeg) == nn1
         // -> K*F == 0:
-        //    --> clear for the row [K2  0  1]
+        //    --> clear for the row [0  K3  1]
         //    --> the other one yields
         //           -B * (X I + A1) + (-B*K1i + X I) * B
         //           == X * (-B + B) + (-B*A1 - B*K1i*B)
@@ -1077,15 +1081,20 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         mB.SetDims(nn1, nn1);
         for (long i = 0; i < nn1; i++)
             NTL::negate(mB[i], F0[nn1+i]);
-        F0.kill();
 
-        Mat<zz_p> K1, K2;
+        Mat<zz_p> K1, K3;
         K1.SetDims(nn1, nn1);
-        K2.SetDims(eps, nn1);
         for (long i = 0; i < nn1; i++)
             VectorCopy(K1[i], K[i], nn1);
         if (eps > 0)
-            VectorCopy(K2[0], K[nn1], nn1);
+        {
+            Mat<zz_p> v;
+            v.SetDims(1, nn1);
+            v[0] = F0[m+n-1];
+            inv(K3, mB);
+            mul(K3, v, K3);
+        }
+        F0.kill();
 
         inv(K1, K1);
         mul(K1, mB, K1);
@@ -1093,6 +1102,7 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // FIXME the first multiplication (kerbas2 in rec call by the below
         // kerbas) could be accelerated
         // currently we just build kerbas explicitly now, and multiply later in recursive call
+        kerbas.kill();
         kerbas.SetDims(nn1+eps, m+n);
         for (long i = 0; i < nn1; i++)
         {
@@ -1108,19 +1118,19 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         if (eps > 0)
         {
             for (long j = 0; j < nn1; j++)
-                SetCoeff(kerbas[nn1][j], 0, K2[0][j]);
+                SetCoeff(kerbas[nn1][nn1+j], 0, K3[0][j]);
             set(kerbas[nn1][m+n-1]); 
         }
 
         // multiply kernel basis with right-hand columns
         //  
         //      K =   [ -B   -B*K1i + X I  0]
-        //            [ K2         0       1]
+        //            [  0        K3       1]
         //      G =   [  A3  ]     [ 0 ]
         //            [  A4  ] + X [ L ]
         //            [  v2  ]     [ 0 ]
         //     with L = [[Id nn2 x nn2], [Zero (nn1-nn2) x nn2]], nn1-nn2 == m-eps
-        // - the possible last row is K2 * A3 + v2
+        // - the possible last row is K3 * A4 + v2 + X*K3*L
         // - the first nn1 rows are mB*A3 + mB*K1i*A4 + X*(A4 + mB*K1i*L) + X**2 * L
         // recall mB*K1i is currently stored in K1
         Mat<zz_pX> F;
@@ -1151,9 +1161,13 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         // handle possible last row
         if (eps > 0)
         {
-            mul(K2, K2, A3);
+            Mat<zz_p> K3A4;
+            mul(K3A4, K3, A4);
             for (long j = 0; j < nn2; j++)
-                SetCoeff(F[nn1][j], 0, K2[0][j] + ConstTerm(pmat[m+n-1][j]));
+            {
+                SetCoeff(F[nn1][j], 1, K3[0][j]);
+                SetCoeff(F[nn1][j], 0, K3A4[0][j] + ConstTerm(pmat[m+n-1][nn1+j]));
+            }
         }
 
         mul(A3, mB, A3);
@@ -1173,7 +1187,7 @@ void kernel_basis_generic(Mat<zz_pX> & kerbas, Mat<zz_pX> & pmat)
         A4.kill();
         K.kill();
         K1.kill();
-        K2.kill();
+        K3.kill();
         mB.kill();
 
         //std::cout << kerbas*pmat << std::endl;
-- 
2.43.0


From f350729dc2ae9cf02c8e811770e0f341deda6819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:49 +0000
Subject: [PATCH 23/71] fix: interpolant basis checkers accepted wrong
 dimensions; geometric ones aborted on degree = order

---
 .../src/mat_lzz_pX_interpolant.cpp            | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 9f760ff..9ae1d8f 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -26,6 +26,10 @@ bool is_interpolant_basis(
     if (randomized)
         throw std::logic_error("==is_interpolant_basis== Fast randomized interpolant basis verification not implemented yet");
 
+    // test that intbas has the right dimensions
+    if (intbas.NumRows() != (long)shift.size() || intbas.NumCols() != (long)shift.size())
+        return false;
+
     // test that intbas is shift-reduced with form at least 'form'
     if (not is_row_polmatform(form,intbas,shift))
         return false;
@@ -81,6 +85,24 @@ bool is_interpolant_basis_geometric(
     if (randomized)
         throw std::logic_error("==is_interpolant_basis== Fast randomized interpolant basis verification not implemented yet");
 
+    // test that intbas has the right dimensions
+    if (intbas.NumRows() != (long)shift.size() || intbas.NumCols() != (long)shift.size())
+        return false;
+
+    // geometric evaluation is restricted to degree less than order
+    if (deg(intbas) >= order)
+    {
+        Vec<zz_p> pts(INIT_SIZE, order);
+        const zz_p q = pt*pt;
+        zz_p x(1);
+        for (long i = 0; i < order; ++i)
+        {
+            pts[i] = x;
+            x *= q;
+        }
+        return is_interpolant_basis(intbas,evals,pts,shift,form,randomized);
+    }
+
     // test that intbas is shift-reduced with form at least 'form'
     if (not is_row_polmatform(form,intbas,shift))
         return false;
-- 
2.43.0


From b36ecd3232a6332e961a55c668c6e450be8b2801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:01 +0000
Subject: [PATCH 24/71] fix: generic 2n x n approximant bases and Pade wrong
 for degree >= order

The residual middle product was given an operand beyond its announced degree.
---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index d416427..7c25535 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1359,6 +1359,7 @@ void pmbasis_generic_2n_n(
     // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
     Mat<zz_pX> shift_pmat, residual;
     RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, shift_pmat, order - order1/2);
     middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, with 'residual'
@@ -1407,6 +1408,7 @@ void pmbasis_generic_2n_n_top_rows(
     // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
     Mat<zz_pX> shift_pmat, residual;
     RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, shift_pmat, order - order1/2);
     middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, with 'residual'
@@ -1958,6 +1960,7 @@ void matrix_pade_generic(
     // --> residual = (den * RightShift(pmat, order1/2) * X^-ceil(order1/2)) mod X^order2
     Mat<zz_pX> shift_pmat, residual;
     RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, shift_pmat, order - order1/2);
     middle_product(residual, den, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, approximant basis with 'residual'
@@ -2016,6 +2019,7 @@ void matrix_pade_generic_recursion(
     // --> residual = (den * RightShift(pmat, order1/2) * X^-ceil(order1/2)) mod X^order2
     Mat<zz_pX> shift_pmat, residual;
     RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, shift_pmat, order - order1/2);
     middle_product(residual, den, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, approximant basis with 'residual'
-- 
2.43.0


From bf00feeb19a2df4115be32b7145b3dfdf1608e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:09 +0000
Subject: [PATCH 25/71] fix: newton_inv_trunc_geometric aborted with threshold
 1

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 1e0d55f..6028b23 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -332,7 +332,7 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
 
     while (k < m)
     {
-        long n = 3*k - 2;
+        long n = std::max(3*k - 2, 2*k); // evaluation requires n > 2k-1, even when k=1
         zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
 
         ev.prepare_degree(k - 1);
-- 
2.43.0


From 4ec9bd96cc1ded3e5e82208f7339b639b4d51a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:14 +0000
Subject: [PATCH 26/71] fix: Newton inverses (FFT, geometric) reused old
 contents of the output matrix

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 6028b23..8e38793 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -212,7 +212,10 @@ void newton_inv_trunc_FFT(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long thres
                 zz_pX P;
                 FromfftRep(P, R1, 0, k - 1);
 
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]); // entries uncovered by SetLength may be nonzero
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
@@ -405,7 +408,10 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
             {
                 zz_pX P;
                 ev.interpolate(P, mat_val3[i*s + ell]);
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]); // entries uncovered by SetLength may be nonzero
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
-- 
2.43.0


From 0cb48042104f46ef25acf54acdd5e76b4ee94680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:08 +0000
Subject: [PATCH 27/71] fix: linsolve_via_series with constant matrix wrong
 when u aliases b

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 6c927da..c0934fc 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -314,7 +314,7 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
     {
         Mat<zz_p> iA;
         inv(iA, coeff(A, 0));
-        u.SetLength(n);
+        Vec<zz_pX> sol(INIT_SIZE, n); // u may alias b
         // TODO write function for mul(u, iA, b);
         zz_pX buf1, buf2;
         for (long i = 0; i < n; ++i)
@@ -325,8 +325,9 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
                 mul(buf2, iA[i][j], b[j]);
                 add(buf1, buf1, buf2);
             }
-            u[i].swap(buf1);
+            sol[i].swap(buf1);
         }
+        u.swap(sol);
         set(den);
         return;
     }
-- 
2.43.0


From a6359e2b2ecf31aeae3ac33f97d20f6f51ecb75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:08 +0000
Subject: [PATCH 28/71] fix: linsolve_via_kernel reported no solution when the
 last entry is not the pivot

---
 .../src/mat_lzz_pX_linsolve.cpp               | 25 +++++++------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index c0934fc..6226991 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -463,37 +463,30 @@ long linsolve_via_kernel(
     // shift = row degree of augmented matrix
     // --> this is the shift which ensures good efficiency for the used kernel
     // algorithm (Zhou-Labahn-Storjohann ISSAC 2012)
-    // --> with this shift, we are sure to obtain a vector in the kernel of
-    // the form [ -- u -- | den ] with den being the pivot entry (hence,
-    // gives an irreducible solution)
+    // --> rows of a kernel basis have coprime entries: any row of the form
+    // [ -- u -- | den ] with den nonzero gives an irreducible solution
     VecLong shift;
     row_degree(shift, pmat);
-    VecLong copy_shift(shift);
 
     // compute kernel
     // TODO via ZLS-approx... for larger dimensions sometimes interp might be better: needs tuning
     Mat<zz_pX> kerbas;
     kernel_basis_zls_via_approximation(kerbas, pmat, shift);
 
-    // compute shifted pivot index of kernel
-    // Note that here copy_shift is a copy of the initial shift while `shift`
-    // is merely used as a temporary variable which will hold the pivot
-    // degrees, which we just ignore (they are not needed)
-    VecLong pivind;
-    row_pivots(pivind, shift, kerbas, copy_shift);
-
-    // find index of row of kerbas with pivot index in the last entry
-    VecLong::const_iterator pivind_n = std::find(pivind.begin(), pivind.end(), n);
+    // find a row of kerbas with nonzero last entry
+    // (this entry is not always the shifted pivot, for example when A has
+    // columns of unbalanced degrees)
+    long row = 0;
+    while (row < kerbas.NumRows() && IsZero(kerbas[row][n]))
+        ++row;
 
     // if no such row, there is no solution
     // --> may happen if kernel is empty, which itself may happen only if m > n
     // --> may also happen if A is rank-deficient but b is not in the
     // K(x)-column space of A, then kerbas is simply a kernel basis for A
-    if (pivind_n==pivind.end())
+    if (row == kerbas.NumRows())
         return 0;
 
-    const long row = pivind_n - pivind.begin();
-
     // deduce solution
     u.SetLength(n);
     for (long j = 0; j < n; ++j)
-- 
2.43.0


From 1d7ca7a97ae468e65a5c42d5824e01c10c8cf9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:08 +0000
Subject: [PATCH 29/71] fix: verify_determinant up to a constant accepted zero,
 or anything for a zero determinant

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 009a7a1..c51e802 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -32,7 +32,10 @@ bool verify_determinant(const zz_pX & det, const Mat<zz_pX> & pmat, bool up_to_c
         zz_p det_pt2 = determinant(eval(pmat, pt));
         // evaluate the provided determinant
         zz_p ev_det2 = eval(det,pt);
-        return (det_pt * ev_det2 == det_pt2 * ev_det);
+        // the constant must be nonzero: also compare vanishing of the values
+        return (det_pt * ev_det2 == det_pt2 * ev_det
+                && IsZero(det_pt) == IsZero(ev_det)
+                && IsZero(det_pt2) == IsZero(ev_det2));
     }
 }
 
-- 
2.43.0


From 383e1bd6dd4831a5ed28151408b09b4b92e315b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:08 +0000
Subject: [PATCH 30/71] fix: determinants via evaluation failed on the zero
 matrix

---
 .../src/mat_lzz_pX_determinant.cpp            | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index c51e802..7f4c1ab 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -296,6 +296,12 @@ void determinant_via_linsolve(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     const long nb_points = pmat.NumRows() * deg(pmat) + 1;
     zz_pX_Multipoint_General ev = get_general_points(nb_points);
     Vec<Mat<zz_p>> evals;
@@ -308,6 +314,12 @@ void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     const long d = deg(pmat);
     const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_Geometric ev = get_geometric_points(nb_points);
@@ -322,13 +334,19 @@ void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_FFT(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     // degree and dimension
     const long d = deg(pmat);
     const long dim = pmat.NumRows();
 
     // prepare FFT representation
     const long idxk = NextPowerOfTwo(pmat.NumRows() * d + 1);
-    const long nb_points = 1 << idxk;
+    const long nb_points = 1L << idxk;
     fftRep R(INIT_SIZE, idxk);
 
     // matrix of evaluations of pmat: evals[k] contains
-- 
2.43.0


From 1d2062bfe9a117f7ca8c1349d586b0ada1d014cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:49 +0000
Subject: [PATCH 31/71] fix: determinant_generic_knowing_degree crashed when
 leading columns are zero

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 7f4c1ab..aa380ce 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -252,6 +252,11 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
     // --> compute approximants at order deg(pmat_l) + D + 1
     // (cf for example Neiger-Rosenkilde-Solomatov ISSAC 2018, Lemma 4.3)
     long deg_pmat_l = deg(pmat_l);
+    if (deg_pmat_l < 0) // zero columns: the determinant is zero
+    {
+        clear(det);
+        return (degree==deg(det));
+    }
     long deg_ker = ceil( cdim1 * deg_pmat_l / (double)(dim-cdim1) );
     long order = deg_pmat_l + deg_ker + 1;
 
-- 
2.43.0


From 267f73584b8867b84074c731bc6e12ca624f3ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:14 +0000
Subject: [PATCH 32/71] fix: reduced_form_gjv crashed on constant matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
index 3e692fe..6d02639 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
@@ -13,6 +13,12 @@ long reduced_form_gjv(
     // dimensions
     const long dim = pmat.NumCols();
     const long d = deg(pmat);
+    // constant (invertible) matrix: already reduced
+    if (d == 0)
+    {
+        reduced = pmat;
+        return 1;
+    }
     std::cout << dim << "\t" << d << "\t";
 
     // inv_trunc version
-- 
2.43.0


From 11ef5013ba42adb464b29a7260bd96049497b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:58 +0000
Subject: [PATCH 33/71] fix: gen_pows left upper products unset below the FFT
 crossover, hence wrong gen_sequence

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 525894a..4865cb8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -23,16 +23,18 @@ void MulMod_local(zz_pX& x, zz_pX& upper, const zz_pX& a, const zz_pXMultiplier&
     if (da < 0)
     {
         clear(x);
+        clear(upper);
         return;
     }
 
     if (!B.UseFFT || !F.UseFFT || da <= NTL_zz_pX_MOD_CROSSOVER)
     {
         zz_pX P1;
+        // coefficients n-1..2n-3 of a * rev(1/rev(f)), reversed twice
+        MulTrunc(P1, InvTrunc(reverse(F.f, n), n-1), reverse(a, n-1), n-1);
+        reverse(upper, P1, n-2);
         mul(P1, a, B.b);
         rem(x, P1, F);
-        // todo: do this case
-        upper = 0;
         return;
     }
 
-- 
2.43.0


From 085a4f16c46003bbf90380bc887d17ee09c69928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:25 +0000
Subject: [PATCH 34/71] fix: gen_sequence crashed when quotients vanish

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 4865cb8..76afc29 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -123,6 +123,15 @@ void mul_special(Mat<zz_pX>& c, Mat<zz_pX>& cs, const Mat<zz_pX>& a, const Mat<z
     long p = b.NumCols();
     long ell;
 
+    if (dA < 0 || dB < 0) // one operand is zero
+    {
+        c.SetDims(m, p);
+        clear(c);
+        cs.SetDims(m, p);
+        clear(cs);
+        return;
+    }
+
     Mat<zz_p> tmp_mat(INIT_SIZE, sA, m * n);
     Mat<zz_p> valA, valB, valC, valCs;
     Mat<zz_p> vA, vB, iv;
-- 
2.43.0


From c89d6391b9517e691e41a99732249b43cb1b06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 35/71] fix: transposed evaluation at general points ignored
 output_size

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
index 57860d0..f43c479 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
@@ -153,14 +153,19 @@ void zz_pX_Multipoint_General::interpolate(zz_pX& f, const Vec<zz_p>& val)
 
 /*------------------------------------------------------------*/
 /* transposed multipoint evaluation                           */
-/* parameter output_size not used for the moment              */
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_General::t_evaluate(zz_pX& f, const Vec<zz_p>& val, long output_size) const 
 {
+    if (output_size == -1)
+        output_size = n;
+
     zz_pX rev_num, num;
     up_tree(rev_num, tree, val);
     num = reverse(rev_num, n-1);
-    f = MulTrunc(num, inverse_root, n);
+    if (output_size <= n)
+        f = MulTrunc(num, inverse_root, output_size);
+    else
+        f = MulTrunc(num, InvTrunc(reverse_root, output_size), output_size);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From bd7b7174d52ec01ae2c649ec350d1528f43e9467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 36/71] fix: geometric evaluation at zero points returned n
 values

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 15b8828..c4ddcc8 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -349,13 +349,14 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& P) const
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& f, long nb) const
 {
-    val.SetLength(nb + n);
-
     if (nb == 0) 
     {
+        val.SetLength(0);
         return;
     }
-    
+
+    val.SetLength(nb + n);
+
     long idx = 0;
     Vec<zz_p> tmp;
     zz_pX f_loc = f;
-- 
2.43.0


From 1f7e9f926b2d018eeb0dceea90d9976815566cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:42 +0000
Subject: [PATCH 37/71] fix: geometric evaluation wrong when the output aliases
 the coefficients of the input

---
 .../lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index c4ddcc8..5c9a69f 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -280,21 +280,23 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& P) const
         Error("Degree too large for geometric evaluate.");
     }
 
-    val.SetLength(n);
-
     if (n == 0)
     {
+        val.SetLength(0);
         return;
     }
 
     if (n == 1)
     {
-        val[0] = coeff(P, 0);
+        const zz_p c = coeff(P, 0);
+        val.SetLength(1);
+        val[0] = c;
         return;
     }
 
     if (dp == -1)
     {
+        val.SetLength(n);
         for (long i = 0; i < n; i++)
         {
             val[i] = 0;
@@ -314,10 +316,12 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& P) const
         dp = dp_found; 
     }
 
+    // val may alias P.rep: from here on P is not used
     for (long i = 0; i <= dp; i++)  
     {
         SetCoeff(a, dp - i, xs[i] * coeff(P, i));  
     }
+    val.SetLength(n);
 
     if (FFT_feasible && do_FFT_evaluate)
     {
-- 
2.43.0


From 104fd555914beffd09f3a8147cf63ccea157125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:37 +0000
Subject: [PATCH 38/71] fix: geometric transposed interpolation wrong when the
 output aliases the coefficients of the input

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 5c9a69f..7dfeaed 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -518,16 +518,17 @@ void zz_pX_Multipoint_Geometric::t_evaluate(zz_pX& P, const Vec<zz_p>& val, long
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_Geometric::t_interpolate(Vec<zz_p>& val, const zz_pX& P) 
 {
-    val.SetLength(n);
-
     if (n == 0)
     {
+        val.SetLength(0);
         return;
     }
 
     if (n == 1)
     {
-        val[0] = coeff(P, 0);
+        const zz_p c = coeff(P, 0);
+        val.SetLength(1);
+        val[0] = c;
         return;
     }
 
@@ -537,6 +538,7 @@ void zz_pX_Multipoint_Geometric::t_interpolate(Vec<zz_p>& val, const zz_pX& P)
     {
         SetCoeff(k, i, coeff(P, i) * ws[i]);
     }
+    val.SetLength(n); // val may alias P.rep: from here on P is not used
 
     if (FFT_feasible && do_FFT_interpolate)
     {
-- 
2.43.0


From 144d8a943f538b880409a7060136124c6828ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:31 +0000
Subject: [PATCH 39/71] fix: products by matrices, and left products of
 Toeplitz/Hankel-like matrices, silently left the output unset

---
 .../src/circulant_column_lzz_p.cpp            |  4 ++
 .../src/circulant_row_lzz_p.cpp               |  5 ++-
 .../src/hankel_like_minus_lzz_p.cpp           | 37 +++++++++++++++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 32 ++++++++++++++++
 .../src/lower_triangular_toeplitz_lzz_p.cpp   |  4 ++
 .../src/toeplitz_like_minus_lzz_p.cpp         | 32 ++++++++++++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 32 ++++++++++++++++
 .../structured_lzz_p/structured_lzz_p.h       | 32 ++++++++++++++++
 8 files changed, 177 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index fe33fbf..de4dd0d 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -176,6 +176,8 @@ void circulant_column_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) c
         res = mul_right(input);
         return;
     }
+
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -247,6 +249,8 @@ void circulant_column_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) co
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
index 0ccf51f..8408860 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
@@ -157,7 +157,8 @@ void circulant_row_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) cons
         res = mul_right(input);
         return;
     }
-    Error ("not implemented yet."); // todo: move to structured_lzz_p.cpp
+
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -249,6 +250,8 @@ void circulant_row_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) const
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ee35dac..2547550 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -113,6 +113,13 @@ void hankel_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inpu
 
 void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -120,10 +127,40 @@ void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) con
 /*------------------------------------------------------------*/
 void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> rev;
+    rev.SetLength(m);
+    for (long i = 0; i < m; i++)
+        rev[i] = in[m - 1 - i];
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        lower_triangular_toeplitz_G[i].mul_left(tmp1, rev);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index a6d7c7d..b77332e 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -109,6 +109,13 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
 
 void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -116,10 +123,35 @@ void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 /*------------------------------------------------------------*/
 void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[n - 1 - j];
+    }
 }
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index 4f89305..f5353b3 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -125,6 +125,8 @@ void lower_triangular_toeplitz_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_right(input);
         return;
     }
+
+    mul_right_by_columns(res, input);
 }
 
 
@@ -191,6 +193,8 @@ void lower_triangular_toeplitz_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_left(input);
         return;
     }
+
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a9478eb..b85346f 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -114,6 +114,13 @@ void toeplitz_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& in
 
 void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -121,10 +128,35 @@ void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) c
 /*------------------------------------------------------------*/
 void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        toeplitz_G[i].mul_left(tmp1, in);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index f2d4100..4f52e86 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -105,6 +105,13 @@ void toeplitz_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inp
 
 void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -112,10 +119,35 @@ void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) co
 /*------------------------------------------------------------*/
 void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/structured_lzz_p.h b/ntl-extras/structured_lzz_p/structured_lzz_p.h
index a7ba93b..d8fcdb8 100644
--- a/ntl-extras/structured_lzz_p/structured_lzz_p.h
+++ b/ntl-extras/structured_lzz_p/structured_lzz_p.h
@@ -17,6 +17,38 @@ NTL_USE_NNS
 /*------------------------------------------------------------*/
 class structured_lzz_p
 {
+protected:
+    /*------------------------------------------------------------*/
+    /* matrix products, one vector at a time (in != out)          */
+    /*------------------------------------------------------------*/
+    inline void mul_right_by_columns(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        const long p = in.NumCols();
+        Vec<zz_p> vec_in, vec_out;
+        vec_in.SetLength(NumCols());
+        out.SetDims(NumRows(), p);
+        for (long j = 0; j < p; j++)
+        {
+            for (long i = 0; i < NumCols(); i++)
+                vec_in[i] = in[i][j];
+            mul_right(vec_out, vec_in);
+            for (long i = 0; i < NumRows(); i++)
+                out[i][j] = vec_out[i];
+        }
+    }
+
+    inline void mul_left_by_rows(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        const long p = in.NumRows();
+        Vec<zz_p> vec_out;
+        out.SetDims(p, NumCols());
+        for (long i = 0; i < p; i++)
+        {
+            mul_left(vec_out, in[i]);
+            out[i] = vec_out;
+        }
+    }
+
 public:
     /*------------------------------------------------------------*/
     /* to avoid memory leaks                                      */
-- 
2.43.0


From 7335e23eea936160c6791301a82848f24316a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:31 +0000
Subject: [PATCH 40/71] fix: circulant_column left product wrote past its
 buffer when the matrix is tall

---
 ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index de4dd0d..ece7a61 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -200,7 +200,7 @@ void circulant_column_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) co
     fftRep fft_input = fftRep(INIT_SIZE, K);
     
     zz_pX input_X;
-    input_X.rep.SetLength(m);
+    input_X.rep.SetLength(n);
     zz_p *cf = input_X.rep.elts();
     for (long i = 0; i < n; i++)
             cf[i] = input[i];
-- 
2.43.0


From b7a9bd6d76ac85ce135976862840488de6592861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:31 +0000
Subject: [PATCH 41/71] fix: to_dense of triangular Toeplitz and
 Toeplitz/Hankel-like matrices depended on the previous contents of its output

---
 ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp   | 1 +
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp    | 1 +
 .../structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp  | 4 ++++
 ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp  | 1 +
 5 files changed, 8 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index 2547550..8b8d071 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -169,6 +169,7 @@ void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 void hankel_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += lower_triangular_toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index b77332e..4fefb2c 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -160,6 +160,7 @@ void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 void hankel_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index f5353b3..b71285b 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -63,8 +63,12 @@ void lower_triangular_toeplitz_lzz_p::to_dense(Mat<zz_p>& Mdense) const
 {
     Mdense.SetDims(n, n);
     for (long j = 0; j < n; j++)
+    {
+        for (long i = 0; i < j; i++)
+            Mdense[i][j] = 0;
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
+    }
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index b85346f..c11a88c 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -165,6 +165,7 @@ void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) co
 void toeplitz_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index 4f52e86..aa25e2d 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -156,6 +156,7 @@ void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) con
 void toeplitz_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
-- 
2.43.0


From 8bba77973c23399688d489da69f207b974a2b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:23 +0000
Subject: [PATCH 42/71] fix: phi_plus_generators of a Sylvester matrix crashed
 when the second polynomial is constant

---
 .../structured_lzz_p/src/sylvester_lzz_p.cpp  | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 641ae98..e764cd6 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -449,19 +449,20 @@ void sylvester_lzz_p::phi_plus_generators(Mat<zz_p>& G, Mat<zz_p>& H) const
         G[i][0] = 0;
         G[i][1] = 0;
     }
-    H[deg(b) - 1][0] = 1;
     H[deg(a) + deg(b) - 1][1] = 1;
-
-    for (long i = 0; i < deg(a); i++)
-        G[i + deg(b)][0] += coeff(a, i);
-    G[0][0] += coeff(a, deg(a));
     for (long i = 0; i < deg(b); i++)
-    {
-        G[i][0] -= coeff(b, i);
         G[i + deg(a)][1] += coeff(b, i);
+
+    if (deg(b) > 0) // otherwise, the first block of columns is empty
+    {
+        H[deg(b) - 1][0] = 1;
+        for (long i = 0; i < deg(a); i++)
+            G[i + deg(b)][0] += coeff(a, i);
+        G[0][0] += coeff(a, deg(a));
+        for (long i = 0; i < deg(b); i++)
+            G[i][0] -= coeff(b, i);
+        G[deg(b) % (deg(a) + deg(b))][0] -= coeff(b, deg(b));   // in case deg(a) = 0
     }
-    
-    G[deg(b) % (deg(a) + deg(b))][0] -= coeff(b, deg(b));   // in case deg(a) = 0
     G[0][1] += coeff(b, deg(b));
 }
 
-- 
2.43.0


From 10ae8625216280079cc30a8937e0d3c368b0852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:22 +0000
Subject: [PATCH 43/71] fix: mosaic Hankel/Toeplitz solve crashed or returned
 garbage when the system has no solution

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 +++++++-
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 574e30d..b65ccaf 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -623,7 +623,13 @@ long mosaic_hankel_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh, lo
 
     if (s != 1)
         return 0;
-    
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
+
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
 
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 4b70add..6faea12 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -641,7 +641,13 @@ long mosaic_toeplitz_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh,
 
     if (s != 1)
         return 0;
-    
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
+
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
 
-- 
2.43.0


From b891b7e1493f8731aec43d0242f7c3d3fa6eeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:41 +0000
Subject: [PATCH 44/71] fix: solve_grp crashed on the zero matrix

---
 .../src/cauchy_like_geometric_lzz_p.cpp       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
index 52f3438..d161007 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
@@ -1025,14 +1025,17 @@ long cauchy_like_geometric_lzz_p::solve_grp(Vec<zz_p>& x, const Vec<zz_p> b, lon
     for (long i = rk; i < m; i++)
         x[i] = random_zz_p();
 
-    mul_right(tmp_out, x);
-    for (long i = 0; i < rk; i++)
-        tmp_out[i] = b[i] - tmp_out[i];
-    tmp_out.SetLength(rk);
-    
-    iCL.mul_right(top, tmp_out);
-    for (long i = 0; i < rk; i++)
-        x[i] = top[i];
+    if (rk > 0) // otherwise, this is the zero matrix
+    {
+        mul_right(tmp_out, x);
+        for (long i = 0; i < rk; i++)
+            tmp_out[i] = b[i] - tmp_out[i];
+        tmp_out.SetLength(rk);
+
+        iCL.mul_right(top, tmp_out);
+        for (long i = 0; i < rk; i++)
+            x[i] = top[i];
+    }
 
     if (mul_right(x) != b)
     {
-- 
2.43.0


From 266c9d8886ae89c3acc5685e12270aeea9743533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:18 +0000
Subject: [PATCH 45/71] fix: top_right_block_inverse read past the Bezout
 coefficients when their degree is not maximal

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index e764cd6..ff66059 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -515,13 +515,13 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
     zz_pX rS;
     rS.rep.SetLength(dB);
     for (long i = 0; i < dB; i++)
-        rS[i] = s[dB - 1 - i];
+        rS[i] = coeff(s, dB - 1 - i);
     rS.normalize();
 
     zz_pX rT;
     rT.rep.SetLength(dA);
     for (long i = 0; i < dA; i++)
-        rT[i] = t[dA - 1 - i];
+        rT[i] = coeff(t, dA - 1 - i);
     rT.normalize();
 
     zz_pX rS_over_rB, R_rS_rB, rT_over_rA, R_rT_rA;
-- 
2.43.0


From c2332ff81677c3b05083a727205b73c54e4a5487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:05 +0000
Subject: [PATCH 46/71] fix: solving with a Sylvester matrix crashed when one
 polynomial is constant

---
 .../structured_lzz_p/src/sylvester_lzz_p.cpp  | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index ff66059..8915f94 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -205,10 +205,16 @@ void sylvester_lzz_p::prepare_inverse()
         zz_p id = 1 / coeff(d, 0);
         invA = id * s;
         invB = id * t;
-        build(modA, a);
-        build(modB, b);
-        build(multIA, invA, modB);
-        build(multIB, invB, modA);
+        if (deg(a) > 0)
+        {
+            build(modA, a);
+            build(multIB, invB, modA);
+        }
+        if (deg(b) > 0)
+        {
+            build(modB, b);
+            build(multIA, invA, modB);
+        }
 
         invSerA = InvTrunc(revA, n);
         invSerB = InvTrunc(revB, n);
@@ -251,8 +257,10 @@ long sylvester_lzz_p::solve(Vec<zz_p>& out, const Vec<zz_p>& in) const
 
     if (singular == 0) // inverse known
     {
-        MulMod(FA, FA, multIB, modA);
-        MulMod(FB, FB, multIA, modB);
+        if (deg(a) > 0)
+            MulMod(FA, FA, multIB, modA);
+        if (deg(b) > 0)
+            MulMod(FB, FB, multIA, modB);
     }
     else // not known 
     {
@@ -266,8 +274,10 @@ long sylvester_lzz_p::solve(Vec<zz_p>& out, const Vec<zz_p>& in) const
         zz_p id = 1 / coeff(d, 0);
         zz_pX iA = id * s;
         zz_pX iB = id * t;
-        FA = MulMod(FA, iB, a);
-        FB = MulMod(FB, iA, b);
+        if (deg(a) > 0)
+            FA = MulMod(FA, iB, a);
+        if (deg(b) > 0)
+            FB = MulMod(FB, iA, b);
     }
     
     out.SetLength(n);
@@ -347,8 +357,10 @@ long sylvester_lzz_p::solve_transpose(Vec<zz_p>& out, const Vec<zz_p>& in) const
 
     if (singular == 0) // inverse known
     {
-        UpdateMap(va, va, multIB, modA);
-        UpdateMap(vb, vb, multIA, modB);
+        if (deg(a) > 0)
+            UpdateMap(va, va, multIB, modA);
+        if (deg(b) > 0)
+            UpdateMap(vb, vb, multIA, modB);
     }
     else // not known 
     {
@@ -362,9 +374,16 @@ long sylvester_lzz_p::solve_transpose(Vec<zz_p>& out, const Vec<zz_p>& in) const
         zz_p id = 1 / coeff(d, 0);
         zz_pX iA = id * s;
         zz_pX iB = id * t;
-        zz_pXModulus mA(a), mB(b);
-        UpdateMap(va, va, zz_pXMultiplier(iB, mA), mA);
-        UpdateMap(vb, vb, zz_pXMultiplier(iA, mB), mB);
+        if (deg(a) > 0)
+        {
+            zz_pXModulus mA(a);
+            UpdateMap(va, va, zz_pXMultiplier(iB, mA), mA);
+        }
+        if (deg(b) > 0)
+        {
+            zz_pXModulus mB(b);
+            UpdateMap(vb, vb, zz_pXMultiplier(iA, mB), mB);
+        }
     }
 
     zz_pX FA, FB; 
-- 
2.43.0


From d3d7f5d50889908b7c8b958411d00bb74fb688ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:05 +0000
Subject: [PATCH 47/71] fix: top_right_block_inverse wrote out of bounds when
 the first polynomial is constant

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 8915f94..7682f61 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -585,7 +585,8 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
             U0[i + dB] = U1[i + dB] = lC * (coeff(t, i) + coeff(bottom, i));
             U1[i + dB] -= coeff(a, i);
         }
-    U0[dB] -= coeff(b, dB);
+    if (dA > 0)
+        U0[dB] -= coeff(b, dB);
 
     Mat<zz_p> L0, R0, L1, R1;
     L0.SetDims(m, m);
-- 
2.43.0


From 74b398d5fc6f050b56018dfda1741555cf088373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:05 +0000
Subject: [PATCH 48/71] fix: mosaic solve could return a wrong solution because
 of a singular random preconditioner

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 ++++++--
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index b65ccaf..038b5b7 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -503,11 +503,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0); // the preconditioner must be invertible
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0); // the preconditioner must be invertible
 
     Vec<zz_p> tmp_v;
     for (long j = 0; j < alpha; j++)
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 6faea12..85a2322 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -512,11 +512,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0); // the preconditioner must be invertible
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0); // the preconditioner must be invertible
 
 
     // gens 0 to alpha-1
-- 
2.43.0


From 8f9ccc37a4c16d6ac5f78ef9f104d348287439ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:44 +0000
Subject: [PATCH 49/71] fix: phi_plus_generators of a polynomial Sylvester
 matrix wrote out of bounds when the second polynomial is constant in y

---
 ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index d13ee8b..10a33ed 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -344,7 +344,8 @@ void sylvester_lzz_pX::phi_plus_generators(Mat<zz_pX>& G, Mat<zz_pX>& H) const
         G[i][0] = 0;
         G[i][1] = 0;
     }
-    H[dBy - 1][0] = 1;
+    if (dBy > 0)
+        H[dBy - 1][0] = 1;
     H[dAy + dBy - 1][1] = 1;
 
     for (long i = 0; i < dAy; i++)
-- 
2.43.0


From 6ff1ef2a6ad247e45a7a0dc4151ebacbe6d3eb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:44 +0000
Subject: [PATCH 50/71] fix: newton_inv_trunc aborted when a leading
 coefficient vanishes at x=0 although M(0) is invertible

---
 .../src/sylvester_lzz_pX.cpp                  | 35 ++++++++++++++-----
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index 10a33ed..ad5bc1c 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -398,21 +398,38 @@ void sylvester_lzz_pX::newton_inv_trunc(toeplitz_like_minus_lzz_pX& iM, long m)
     for (long i = 0; i < b.length(); i++)
         SetCoeff(b0, i, coeff(b[i], 0));
 
-    if (deg(a0) == 0 || deg(b0) == 0)
+    if (dAy == 0 || dBy == 0)
     {
         Error("Degree must be positive in newton_inv_trunc");
     }
 
-    sylvester_lzz_p S(a0, b0);
-    toeplitz_like_minus_lzz_p iS;
-    long r = S.inv(iS);
+    Mat<zz_pX> G, H; // generators of iM;
 
-    if (r == 0)
-        Error("Sylvester matrix not invertible at zero");
+    if (deg(a0) == dAy && deg(b0) == dBy)
+    {
+        sylvester_lzz_p S(a0, b0);
+        toeplitz_like_minus_lzz_p iS;
+        long r = S.inv(iS);
 
-    Mat<zz_pX> G, H; // generators of iM;
-    G = conv(iS.G);  
-    H = transpose(conv(iS.H));  
+        if (r == 0)
+            Error("Sylvester matrix not invertible at zero");
+
+        G = conv(iS.G);  
+        H = transpose(conv(iS.H));  
+    }
+    else
+    {
+        // a leading coefficient vanishes at x=0: M(0) is not the Sylvester matrix of a0, b0
+        Mat<zz_p> iM0;
+        zz_p det;
+        inv(det, iM0, coeff(to_dense(), 0));
+
+        if (det == 0)
+            Error("Sylvester matrix not invertible at zero");
+
+        G = conv(-(iM0 * coeff(U, 0)));
+        H = conv(transpose(coeff(V, 0)) * iM0);
+    }
 
     iM = toeplitz_like_minus_lzz_pX(G, transpose(H));
 
-- 
2.43.0


From 1a27a3501fcdbf17380cb59d9682bcc5186f5f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:44 +0000
Subject: [PATCH 51/71] fix: products with a polynomial Sylvester matrix
 crashed on zero inputs or constant polynomials

---
 .../src/sylvester_lzz_pX.cpp                  | 48 ++++++++++++-------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index ad5bc1c..63dc9c2 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -81,8 +81,9 @@ void sylvester_lzz_pX::mul_right(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     for (long i = 0; i < dAy; i++)
         in_G[i] = in[i + dBy];
 
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    // degree 0 for zero inputs, as needed by the Kronecker substitution
+    long dFx = max(deg(in_F), 0);    
+    long dGx = max(deg(in_G), 0);
 
     to_kronecker(kro_A, a, dAx + dFx);  
     to_kronecker(kro_F, in_F, dAx + dFx); 
@@ -137,8 +138,9 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(in_F[i], in[i], s);
     for (long i = 0; i < dAy; i++)
         trunc(in_G[i], in[i + dBy], s);
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    // degree 0 for zero inputs, as needed by the Kronecker substitution
+    long dFx = max(deg(in_F), 0);    
+    long dGx = max(deg(in_G), 0);
 
     Vec<zz_pX> truncA, truncB;
     truncA.SetLength(a.length());
@@ -147,8 +149,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(truncA[i], a[i], s);
     for (long i = 0; i < b.length(); i++)
         trunc(truncB[i], b[i], s);
-    long dTAx = deg(truncA);
-    long dTBx = deg(truncB);
+    long dTAx = max(deg(truncA), 0);
+    long dTBx = max(deg(truncB), 0);
 
     to_kronecker(kro_A, truncA, dTAx + dFx);  
     to_kronecker(kro_F, in_F, dTAx + dFx); 
@@ -202,7 +204,8 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         return;
     }
 
-    long d = deg(in);
+    // degree 0 for zero inputs, as needed by the Kronecker substitution
+    long d = max(deg(in), 0);
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
     to_kronecker(kro_revA, revA, dAx + d);  
@@ -212,8 +215,10 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     {
         zz_pX kro_in, kro_outA, kro_outB;
         to_kronecker(kro_in, in, dAx + d);
-        middle_product(kro_outA, kro_revA, kro_in << dAx, dAy * (dAx + d + 1) + dAx, dBy * (dAx + d + 1) - 1);
-        middle_product(kro_outB, kro_revB, kro_in << dBx, dBy * (dAx + d + 1) + dBx, dAy * (dAx + d + 1) - 1);
+        if (dBy > 0)
+            middle_product(kro_outA, kro_revA, kro_in << dAx, dAy * (dAx + d + 1) + dAx, dBy * (dAx + d + 1) - 1);
+        if (dAy > 0)
+            middle_product(kro_outB, kro_revB, kro_in << dBx, dBy * (dAx + d + 1) + dBx, dAy * (dAx + d + 1) - 1);
         from_kronecker(outA, kro_outA, dAx + d);
         from_kronecker(outB, kro_outB, dAx + d);
     }
@@ -222,8 +227,10 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         zz_pX kro_inA, kro_inB, kro_outA, kro_outB;
         to_kronecker(kro_inA, in, dAx + d);
         to_kronecker(kro_inB, in, dBx + d);
-        middle_product(kro_outA, kro_revA, kro_inA << dAx, dAy * (dAx + d + 1) + dAx, dBy * (dAx + d + 1) - 1);
-        middle_product(kro_outB, kro_revB, kro_inB << dBx, dBy * (dBx + d + 1) + dBx, dAy * (dBx + d + 1) - 1);
+        if (dBy > 0)
+            middle_product(kro_outA, kro_revA, kro_inA << dAx, dAy * (dAx + d + 1) + dAx, dBy * (dAx + d + 1) - 1);
+        if (dAy > 0)
+            middle_product(kro_outB, kro_revB, kro_inB << dBx, dBy * (dBx + d + 1) + dBx, dAy * (dBx + d + 1) - 1);
         from_kronecker(outA, kro_outA, dAx + d);
         from_kronecker(outB, kro_outB, dBx + d);
     }
@@ -270,9 +277,10 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     for (long i = 0; i < revB.length(); i++)
         trunc(revB_trunc[i], revB[i], s);
 
-    long d = deg(in_trunc);
-    long dTAx = deg(revA_trunc);
-    long dTBx = deg(revB_trunc);
+    // degree 0 for zero inputs, as needed by the Kronecker substitution
+    long d = max(deg(in_trunc), 0);
+    long dTAx = max(deg(revA_trunc), 0);
+    long dTBx = max(deg(revB_trunc), 0);
 
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
@@ -283,8 +291,10 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     {
         zz_pX kro_in, kro_outA, kro_outB;
         to_kronecker(kro_in, in_trunc, dTAx + d);
-        middle_product(kro_outA, kro_revA, kro_in << dTAx, dAy * (dTAx + d + 1) + dTAx, dBy * (dTAx + d + 1) - 1);
-        middle_product(kro_outB, kro_revB, kro_in << dTBx, dBy * (dTAx + d + 1) + dTBx, dAy * (dTAx + d + 1) - 1);
+        if (dBy > 0)
+            middle_product(kro_outA, kro_revA, kro_in << dTAx, dAy * (dTAx + d + 1) + dTAx, dBy * (dTAx + d + 1) - 1);
+        if (dAy > 0)
+            middle_product(kro_outB, kro_revB, kro_in << dTBx, dBy * (dTAx + d + 1) + dTBx, dAy * (dTAx + d + 1) - 1);
         from_kronecker(outA, kro_outA, dTAx + d);
         from_kronecker(outB, kro_outB, dTAx + d);
     }
@@ -293,8 +303,10 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
         zz_pX kro_inA, kro_inB, kro_outA, kro_outB;
         to_kronecker(kro_inA, in_trunc, dTAx + d);
         to_kronecker(kro_inB, in_trunc, dTBx + d);
-        middle_product(kro_outA, kro_revA, kro_inA << dTAx, dAy * (dTAx + d + 1) + dTAx, dBy * (dTAx + d + 1) - 1);
-        middle_product(kro_outB, kro_revB, kro_inB << dTBx, dBy * (dTBx + d + 1) + dTBx, dAy * (dTBx + d + 1) - 1);
+        if (dBy > 0)
+            middle_product(kro_outA, kro_revA, kro_inA << dTAx, dAy * (dTAx + d + 1) + dTAx, dBy * (dTAx + d + 1) - 1);
+        if (dAy > 0)
+            middle_product(kro_outB, kro_revB, kro_inB << dTBx, dBy * (dTBx + d + 1) + dTBx, dAy * (dTBx + d + 1) - 1);
         from_kronecker(outA, kro_outA, dTAx + d);
         from_kronecker(outB, kro_outB, dTBx + d);
     }
-- 
2.43.0


From 0faa3e4acbebbe271b6fb18a4617c18ea0afcb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:44 +0000
Subject: [PATCH 52/71] fix: to_dense of structured polynomial matrices kept
 old entries of the output

---
 .../src/lower_triangular_toeplitz_lzz_pX.cpp                  | 4 ++++
 .../structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp      | 1 +
 2 files changed, 5 insertions(+)

diff --git a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
index 2cc33ed..9055896 100644
--- a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
@@ -93,8 +93,12 @@ void lower_triangular_toeplitz_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const
 {
     Mdense.SetDims(n, n);
     for (long j = 0; j < n; j++)
+    {
+        for (long i = 0; i < j; i++)
+            clear(Mdense[i][j]);
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
+    }
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
index 6b9f25d..6012c6a 100644
--- a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
@@ -198,6 +198,7 @@ void toeplitz_like_minus_lzz_pX::mul_left_trunc(Vec<zz_pX>& output, const Vec<zz
 void toeplitz_like_minus_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
-- 
2.43.0


From 3192571adb6b9b6237b0bcf66be5365dfe26ba70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:09 +0000
Subject: [PATCH 53/71] fix: random_zz_pXY returned polynomials with a zero
 leading coefficient

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index cff28e6..5a23b8f 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -112,6 +112,7 @@ void random_zz_pXY(zz_pXY&  f, long dx, long dy)
     f.rep.SetLength(dy);
     for (long i = 0; i < dy; i++)
         f.rep[i] = random_zz_pX(dx);
+    f.normalize();
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 66164667013850aa5334187e2fc00b9b367331ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:09 +0000
Subject: [PATCH 54/71] fix: shift_y shifted twice when the output is the
 input, and crashed on large right shifts

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 5a23b8f..967da4d 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -356,9 +356,16 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     if (&b == &a)
     {
         b = shift_y(a, i);
+        return;
     }
 
     long dy = a.degY();
+    if (dy + i < 0)
+    {
+        b.zero();
+        return;
+    }
+
     if (i >= 0)
     {
         b.rep.SetLength(dy + 1 + i);
-- 
2.43.0


From 3a3f6a2e5c34b0b7f95fc81527a0ad7d39002c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:09 +0000
Subject: [PATCH 55/71] fix: resultant_villard_tdeg used too few points when
 the degrees in y differ

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 967da4d..42f19ec 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -626,13 +626,18 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     long nf = f.degY();
     long ng = g.degY();
 
+    // the block algorithm needs positive degrees
+    if (nf <= 0 || ng <= 0 || max(f.degX(), g.degX()) == 0)
+        return resultant(res, f, g);
+
     // expected resultant degree
     long res_deg = f.tdeg() * g.tdeg();
 
     // block projection parameters:
-    // block-size m and expansion length 1 + 2*ceil(d/m)
+    // block-size m and expansion length 1 + 2*ceil(res_deg/m) + 2*max(nf,ng)
+    // (numerators have degree up to max(nf,ng) more than denominators)
     long m = (long) cbrt((nf+ng)/2);  // FIXME allow handpicked exponent
-    long d = 1 + nf+ng + 2 * (res_deg+m-1) / m;
+    long d = 1 + 2*max(nf,ng) + 2 * ((res_deg+m-1) / m);
 
     /* std::cout << "res deg: " << res_deg << std::endl; */
     /* std::cout << "Sylvester dim: " << nf+ng << std::endl; */
-- 
2.43.0


From 30a2eaf45eba6b213483dfee86787a149401b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:09 +0000
Subject: [PATCH 56/71] fix: bivariate resultants crashed on zero polynomials
 and on polynomials constant in x or y

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 42f19ec..3bd49c6 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -447,6 +447,12 @@ void SetCoeff(zz_pXY& x, long i, const zz_pX& c)
 /*------------------------------------------------------------*/
 long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     long dyf = f.degY();
     long dyg = g.degY();
     long n = max(dyf, dyg);
@@ -456,7 +462,7 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     long d = max(dxf, dxg);
 
     long xtra = 2;
-    long dr = 2*n*d + xtra;
+    long dr = max(2*n*d, d) + xtra; // at least d+1 points, also when n = 0
 
     Vec<zz_p> val_res, val_lcf, val_lcg;
     Vec<zz_pX> val_f, val_g;
@@ -528,6 +534,11 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
     long nf = f.degY();
     long ng = g.degY();
+
+    // the block algorithm needs positive degrees
+    if (nf <= 0 || ng <= 0 || max(f.degX(), g.degX()) == 0)
+        return resultant(res, f, g);
+
     long n = max(nf, ng);
 
     long df = f.degX();
-- 
2.43.0


From 94f0dcb52ab8346fc86712dd4d3c2dd7c880014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:09 +0000
Subject: [PATCH 57/71] fix: bivariate resultants could use repeated evaluation
 points over small fields

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 3bd49c6..078b70b 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -1,5 +1,6 @@
 #include <NTL/lzz_pX.h>
 
+#include "lzz_p_extra.h"
 #include "lzz_pX_CRT.h"
 #include "mat_lzz_pX_forms.h"
 #include "mat_lzz_pX_kernel.h"
@@ -471,6 +472,10 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     val_f.SetLength(dr);
     val_g.SetLength(dr);
 
+    // interpolation needs dr distinct points b0 * a0^(2i)
+    if (zz_p::modulus() - 1 < 2*dr)
+        return 0;
+
     zz_p a0, b0;
     long OK = 0;
     long nb = 0;
@@ -479,8 +484,12 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
-        b0 = random_zz_p();
+        element_of_order(a0, 2*dr);
+        if (a0 == 0)
+            return 0;
+        do
+            b0 = random_zz_p();
+        while (b0 == 0);
         evG = zz_pX_Multipoint_Geometric(a0, b0, max(dxf, dxg)+1);
         evG.evaluate(val_lcf, f.rep[dyf], dr);
         evG.evaluate(val_lcg, g.rep[dyg], dr);
@@ -556,6 +565,10 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     val_f.SetLength(delta);
     val_g.SetLength(delta);
 
+    // interpolation needs delta distinct points a0^(2i)
+    if (zz_p::modulus() - 1 < 2*delta)
+        return 0;
+
     zz_p a0, b0;
     long OK = 0;
     long nb = 0;
@@ -564,7 +577,9 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        element_of_order(a0, 2*delta);
+        if (a0 == 0)
+            return 0;
         // TODO: add randomness by using b0 as well
         evG = zz_pX_Multipoint_Geometric(a0, max(df, dg)+1);
         evG.evaluate(val_lcf, f.rep[nf], delta);
@@ -668,6 +683,10 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     val_f.SetLength(d);
     val_g.SetLength(d);
 
+    // interpolation needs d distinct points a0^(2i)
+    if (zz_p::modulus() - 1 < 2*d)
+        return 0;
+
     zz_p a0, b0;
     long OK = 0;
     long nb = 0;
@@ -676,7 +695,9 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        element_of_order(a0, 2*d);
+        if (a0 == 0)
+            return 0;
         // TODO: add randomness by using b0 as well
         evG = zz_pX_Multipoint_Geometric(a0, max(f.degX(), g.degX())+1);
         evG.evaluate(val_lcf, f.rep[nf], d);
-- 
2.43.0


From e9b08ac8f80e70f5a1ba9ea4ca2f9a247e2e13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 58/71] fix: sequence times bivariate polynomial always had
 length zero, so check_cancel accepted everything

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 324badb..30c7f4c 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -28,7 +28,9 @@ Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pX &a){
 Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pXY &f){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
@@ -52,7 +54,9 @@ Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pX &a){
 Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pXY &f){
   Vec<Vec<zz_pX>> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     Vec<zz_pX> val;
     val.SetLength(S[i].length());
@@ -78,11 +82,13 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      MulTrunc(val, f.rep[t], S[i+t], d);
+      val += MulTrunc(f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
-- 
2.43.0


From fcb6c068fb57c982cdd1d03280d56182776dc696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 59/71] fix: kurakin for modules stopped after two
 subiterations

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 30c7f4c..3a5ef93 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -715,8 +715,7 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 	std::cout << "u: " << u << std::endl;
       }
 
-      long temp_counter = 0;
-      while (temp_counter++ < 2){
+      while (true){
 	if (u.length() == 0) break;
 	if (is_zero_seq(u)) break;
 
-- 
2.43.0


From 2d9714654548130364aa4e4340a2b8772e41e134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 60/71] fix: modified_kurakin read past the end of a zero
 sequence

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 3a5ef93..48242bd 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -426,6 +426,7 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
     }
 
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
+    if (k < 0 || k == u.length()) continue;
     long tprime = d - valuation(u[k]);
     if (tprime+t < d){ 
       // this means that x^(t'+t) is non-zero and x^(t'+t) *S 
@@ -838,6 +839,7 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
     }
 
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
+    if (k < 0 || k == u.length()) continue;
     long tprime = d - valuation(u[k]);
     if (tprime+t < d && !bitmap[tprime+t]){
       bitmap[tprime+t] = true;
-- 
2.43.0


From d83060bdf7f8cd2ca0d35c9ee9f35deb4368a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 61/71] fix: minimal valuations in module kurakin ignored that
 zero entries have none

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 48242bd..8f2cf52 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -660,10 +660,12 @@ Vec<zz_pX> solve(const Vec<zz_pX> &l, const Vec<Vec<zz_pX>> &rs, const long d,
   }
   if (ind == -1){
     // check for the minimal valuation on the last column
-    long min_val = valuation(appbas[0][n]);
-    for (long r = 1; r < n+1; r++)
-      if (min_val < 0  || valuation(appbas[r][n]) < min_val)
-	min_val = valuation(appbas[r][n]);
+    long min_val = -1;
+    for (long r = 0; r < n+1; r++){
+      long val = valuation(appbas[r][n]);
+      if (val >= 0 && (min_val < 0 || val < min_val))
+	min_val = val;
+    }
     if (verbose) std::cout << "minval: " << min_val << std::endl;
     tprime = min_val;
     if (verbose) std::cout << "tprime: " << tprime << std::endl;
@@ -797,9 +799,10 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 // if a is zero
 long valuation(const Module &a){
   if (is_zero_seq(a)) return -1;
-  long min_val = valuation(a[0]);
-  for(long i = 1; i < a.length(); i++){
-    if (min_val > valuation(a[i])) min_val = valuation(a[i]);
+  long min_val = -1;
+  for(long i = 0; i < a.length(); i++){
+    long val = valuation(a[i]);
+    if (val >= 0 && (min_val < 0 || val < min_val)) min_val = val;
   }
   return min_val;
 }
-- 
2.43.0


From c87a6ed5f8be81932c6e50b3b288ed5abb001863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 62/71] fix: modified_kurakin kept entries of a previous output
 vector

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 8f2cf52..b21dbd2 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -544,6 +544,7 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0; t < d; t++){
     if (bitmap[t] == true) gens[t] = fs[t];
+    else gens[t] = zz_pX{0};
   }
 }
 
@@ -962,17 +963,19 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0;  t< d; t++)
     if (bitmap[t]) gens[t] = fs[t];
+    else gens[t] = zz_pX{0};
 }
 
-void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
-    const zz_pXY &rhs, zz_pXY &P){
+// solves for P, of degree in y less than n, such that the coefficients of
+// y^(n-1)...y^(2n-2) in SXY*P are those of rhs modulo x^d; S0X is SXY mod x
+void minpoly_DAC(const long d, const long n, const zz_pXY &SXY,
+    const zz_pX &S0X, const zz_pXY &rhs, zz_pXY &P){
   if (d == 1){
-    VecLong shift;
-    shift.emplace_back(0);
-    shift.emplace_back(0);
+    // degree constraints: deg(px) < n, deg(remainder) < n-1, constant
+    VecLong shift{0, 1, n-1};
     Mat<zz_pX> appbas;
     Mat<zz_pX> pmat;
-    long order = deg(S0X)+1;
+    long order = 2*n-1;
     pmat.SetDims(3,1);
     pmat[0][0] = S0X;
     pmat[1][0] = zz_pX{-1};
-- 
2.43.0


From ac9bb6690cec693b911af936518311f20803d580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 63/71] fix: berlekamp_massey_pmbasis* appended to the previous
 contents of gens

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 40 ++++++++++++++----------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index b21dbd2..9480bff 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -1016,41 +1016,44 @@ void minpoly_DAC(const long d, const long n, const zz_pXY &SXY,
   zz_pXY r;
   mul(r, SXY, P0);
   r = trunc_x(r,d);
-  r = shift_y(r,-rhs.degY());
-  r = trunc_y(r,rhs.degY()+1);
+  r = shift_y(r,-(n-1));
+  r = trunc_y(r,n);
   r = rhs - r;
 
-  r = shift_x(r,-d/2);
+  r = shift_x(r,-d0);
 
   zz_pXY P1;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, r, P1);
-  shift_x(P1,P1,d/2);
+  minpoly_DAC(d1, n, trunc_x(SXY,d1), S0X, r, P1);
+  shift_x(P1,P1,d0);
   P = P0 + P1;
 }
 
 void minpoly_nondegenerate(const long d, const Vec<zz_pX> &S, zz_pXY &P){
+  const long n = S.length()/2;
+  P = shift_y(zz_pXY{zz_pX{1}}, n);
+  if (n == 0) return;
+
   // make bivariate polynomial of S for multiplication
   zz_pXY SXY;
-  for (long i = 0; i < S.length()-1; i++)
-    SXY  = SXY + shift_y(zz_pXY{S[i]}, i);
+  for (long i = 0; i < 2*n-1; i++)
+    SXY  = SXY + shift_y(zz_pXY{trunc(S[i],d)}, i);
   zz_pX S0X;
-  for (long i = 0; i < S.length()-1; i++)
-    SetCoeff(S0X, i, S[i][0]);
+  for (long i = 0; i < 2*n-1; i++)
+    SetCoeff(S0X, i, coeff(S[i],0));
   // construct rhs
   zz_pXY rhs;
-  for (long i = S.length()/2; i < S.length(); i++)
-    rhs = rhs + shift_y(zz_pXY{S[i]},(i-S.length()/2));
+  for (long i = n; i < 2*n; i++)
+    rhs = rhs + shift_y(zz_pXY{trunc(S[i],d)},i-n);
   zz_pXY P_res;
-  minpoly_DAC(d,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
-  P = zz_pXY{zz_pX{0}};
-  for (long i = 0; i < P_res.degY(); i++){
-    P.rep.append(P_res.rep[i]);
-  }
-  P = P + shift_y(zz_pXY{zz_pX{1}}, S.length()/2);
+  minpoly_DAC(d,n,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
+  // P_res is the reverse of the minimal polynomial without leading term
+  for (long i = 0; i <= P_res.degY(); i++)
+    P = P + shift_y(zz_pXY{P_res.rep[i]}, n-1-i);
 }
 
 void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
     Vec<zz_pXY> &gens){
+  gens.SetLength(0);
   long n = S.length()/2;
   Mat<zz_pX> T;
   T.SetDims(n+1,n);
@@ -1072,6 +1075,7 @@ void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
 
 void berlekamp_massey_pmbasis(const long d, const Vec<Module> &S,
     Vec<zz_pXY> & gens){
+  gens.SetLength(0);
   long e = S.length()/2;
   long n = S[0].length();
 
@@ -1111,6 +1115,7 @@ void berlekamp_massey_pmbasis(const long d, const Vec<Module> &S,
 
 void berlekamp_massey_pmbasis_hnf(const long d, const Vec<Module> &S,
     Vec<zz_pXY> & gens){
+  gens.SetLength(0);
   long e = S.length()/2;
   long n = S[0].length();
 
@@ -1292,6 +1297,7 @@ void compress(Mat<zz_pX> &mat, const long d, const Vec<Module> &S){
 
 void berlekamp_massey_pmbasis_compressed(const long d, const Vec<Module> &S,
     Vec<zz_pXY> & gens){
+  gens.SetLength(0);
 
   long e = S.length()/2;
 
-- 
2.43.0


From e52e3778a3b04069cab99395ba0460aca566eef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:55 +0000
Subject: [PATCH 64/71] fix: minpoly_nondegenerate used a too short shift and
 returned a reversed polynomial

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 9480bff..5fa33bf 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -982,21 +982,14 @@ void minpoly_DAC(const long d, const long n, const zz_pXY &SXY,
 
     // construct rhs mod x
     zz_pX rhs_x;
-    for (long i = 0; i <= rhs.degY(); i++){
-      if (rhs.rep[0] != zz_p(0))
-	SetCoeff(rhs_x, i, rhs.rep[i][0]);
-    }
-    LeftShift(rhs_x,rhs_x, rhs.degY());
+    for (long i = 0; i <= rhs.degY(); i++)
+      SetCoeff(rhs_x, i, coeff(rhs.rep[i], 0));
+    LeftShift(rhs_x, rhs_x, n-1);
     pmat[2][0] = -rhs_x;
     pmbasis(appbas, pmat, order, shift);
-    long r_cor = 0;
-    for (long i = 0; i < 3; i++){
-      if (deg(appbas[i][2]) == 0){
-	r_cor = i;
-	break;
-      }
-    }
-    zz_pX px = appbas[r_cor][0]*InvTrunc(appbas[r_cor][2],1);
+    // the basis is in ordered weak Popov form: the row having a nonzero
+    // constant in its last entry is the last one
+    zz_pX px = appbas[2][0]*InvTrunc(appbas[2][2],1);
 
     P = zz_pX{0};
     for (long i = 0; i <= deg(px); i++)
@@ -1009,8 +1002,10 @@ void minpoly_DAC(const long d, const long n, const zz_pXY &SXY,
     }
     return;
   }
+  const long d0 = d/2;
+  const long d1 = d-d0;
   zz_pXY P0;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, trunc_x(rhs,d/2),P0);
+  minpoly_DAC(d0, n, trunc_x(SXY,d0), S0X, trunc_x(rhs,d0), P0);
 
   // compute the residue
   zz_pXY r;
-- 
2.43.0


From 4c9d25219c6081c1c6dc7c7d83db2c08a857830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:45 +0000
Subject: [PATCH 65/71] fix: Taylor shift of the zero polynomial wrote to an
 empty vector

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 406a54b..0b154b2 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -367,6 +367,10 @@ void zz_pX_shift_DAC::shift(zz_pX& g, const zz_pX& f) const
 zz_pX_shift_large_characteristic::zz_pX_shift_large_characteristic(long d, const zz_p& c) 
     : zz_pX_shift(d)
 {
+    // no polynomial to shift but zero: nothing to precompute
+    if (d < 0)
+        return;
+
     // fact contains the factorials 0!, 1!, 2!, ..., d!
     fact.SetLength(d+1);
     set(fact[0]);
-- 
2.43.0


From 053584da9be406d9df891d4ec4994dce3a1e2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:45 +0000
Subject: [PATCH 66/71] fix: Z_lzz_p(0, c) wrote to an empty matrix

---
 ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp b/ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp
index cd6a9dc..2350c17 100644
--- a/ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp
+++ b/ntl-extras/mat_lzz_p_extra/src/mat_lzz_p_extra.cpp
@@ -15,7 +15,8 @@ Mat<zz_p> Z_lzz_p(long n, const zz_p& c)
     Mat<zz_p> res(INIT_SIZE, n, n);
     for (long i = 1; i < n; ++i)
         set(res[i][i-1]);
-    res[0][n-1] = c;
+    if (n > 0)
+        res[0][n-1] = c;
     return res;
 }
 
-- 
2.43.0


From 481fa5910827eedd0820e7caf40fc100c858643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:45 +0000
Subject: [PATCH 67/71] fix: element_of_order could return a non-unit when
 strong is false

---
 ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp b/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp
index 24236f5..f50818e 100644
--- a/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp
+++ b/ntl-extras/lzz_p_extra/src/lzz_p_extra.cpp
@@ -42,11 +42,12 @@ void element_of_order(zz_p& a, long ord, long nb_trials, bool strong)
     while (nb < nb_trials)
     {
         random(a);
-        bool ok = true;
+        // only units have an order
+        bool ok = (GCD(a.LoopHole(), zz_p::modulus()) == 1);
         zz_p prod = a;
         zz_p ap = a;
 
-        for (long i = 1; i < ord; i++)
+        for (long i = 1; ok && i < ord; i++)
         {
             prod *= (1 - ap);
             if (ap == 1)
-- 
2.43.0


From f593e8bf893c861787388589ace968301c6286fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:48 +0000
Subject: [PATCH 68/71] fix: magma_init_ZZX and sage_init_ZZX declared U
 instead of the documented UZ

---
 ntl-extras/magma_output/src/magma_output.cpp | 4 ++--
 ntl-extras/sage_output/src/sage_output.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index e36bbba..49ef01c 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -25,11 +25,11 @@ void magma_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                   */
 /*------------------------------------------------------------*/
 void magma_init_ZZX()
 {
-    cout << "U<XX> := PolynomialRing(Integers());\n";
+    cout << "UZ<XX> := PolynomialRing(Integers());\n";
 }
 
 
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index d03eb98..a90054f 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -25,11 +25,11 @@ void sage_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                   */
 /*------------------------------------------------------------*/
 void sage_init_ZZX()
 {
-    cout << "U.<XX> = PolynomialRing(Integers())\n";
+    cout << "UZ.<XX> = PolynomialRing(Integers())\n";
 }
 
 
-- 
2.43.0


From c715dcba2b3dc7e25ca4fcaf75fecf6297007d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:48 +0000
Subject: [PATCH 69/71] fix: output of a vector of polynomials ignored the
 given variable name

---
 ntl-extras/magma_output/src/magma_output.cpp | 2 +-
 ntl-extras/sage_output/src/sage_output.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index 49ef01c..f4a3981 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -187,7 +187,7 @@ void magma_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        magma_output(v[i]);
+        magma_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index a90054f..51429b1 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -189,7 +189,7 @@ void sage_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        sage_output(v[i]);
+        sage_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
-- 
2.43.0


From 876a008ab072e3124790c8085b47b223183d180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:08 +0000
Subject: [PATCH 70/71] fix: determinant_generic_knowing_degree reported
 success with a wrong determinant

The last rows of the approximant basis were taken as a left kernel basis
without verification; when they are not (non-generic leading principal
submatrices, frequent over small fields), the result had the expected degree
by chance. Check it when the degrees do not already imply it.
---
 .../src/mat_lzz_pX_determinant.cpp                | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index aa380ce..fb41a9b 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -277,8 +277,21 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
         for (long j = 0; j < dim; ++j)
             kerbas[i][j] = appbas[i+cdim1][j];
 
-    // then compute the product
     Mat<zz_pX> pmatt;
+
+    // rows of small degree are in the kernel; if some are not, nothing can be
+    // deduced from the product below
+    if (deg(kerbas) + deg_pmat_l >= order)
+    {
+        multiply(pmatt, kerbas, pmat_l);
+        if (not IsZero(pmatt))
+        {
+            clear(det);
+            return (degree==deg(det));
+        }
+    }
+
+    // then compute the product
 #ifdef GENERIC_DET_PROFILE
     t = GetWallTime();
 #endif // GENERIC_DET_PROFILE
-- 
2.43.0


From 6729081eb47339026fda312dc3b4cbb31930c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 71/71] fix: mosaic Hankel/Toeplitz solve and inv always failed
 on matrices vanishing at the first point

The preconditioner evaluated at a geometric progression starting at 1, so
for a matrix whose columns all sum to zero the first minor is always zero
and solve reported failure whatever the random choices. Start from a random
point.
---
 .../structured_lzz_p/src/mosaic_hankel_lzz_p.cpp     | 12 +++++++++---
 .../structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp   | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 038b5b7..334bfb8 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -494,7 +494,13 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     element_of_order(a, 2 * max(m, n));
     b = a*a;
     find_c(c, b, n, m);
-    X_int = zz_pX_Multipoint_Geometric(a, to_zz_p(1), n);
+    // a fixed first point would never give generic rank profile when M vanishes at it
+    zz_p x0;
+    do
+        x0 = random_zz_p();
+    while (x0 == 0);
+    c = c * x0;
+    X_int = zz_pX_Multipoint_Geometric(a, x0, n);
     Y_int = zz_pX_Multipoint_Geometric(a, c, m);
 
     long alpha = G.NumCols();
@@ -531,7 +537,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
         }
     }
 
-    zz_p tmp_z = to_zz_p(1);
+    zz_p tmp_z = x0;
     for (long i = 0; i < n; i++)
     {
         X[i][alpha] = e[i]*(power(tmp_z, n)-1);
@@ -593,7 +599,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
         tmp_z = tmp_z * b;
     }
 
-    CL = cauchy_like_geometric_lzz_p(X, Y, to_zz_p(1), c, b);
+    CL = cauchy_like_geometric_lzz_p(X, Y, x0, c, b);
     return 1;
 }
 
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 85a2322..07a98ec 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -503,7 +503,13 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     element_of_order(a, 2 * max(m, n));
     b = a*a;
     find_c(c, b, n, m);
-    X_int = zz_pX_Multipoint_Geometric(a, to_zz_p(1), n);
+    // a fixed first point would never give generic rank profile when M vanishes at it
+    zz_p x0;
+    do
+        x0 = random_zz_p();
+    while (x0 == 0);
+    c = c * x0;
+    X_int = zz_pX_Multipoint_Geometric(a, x0, n);
     Y_int = zz_pX_Multipoint_Geometric(a, c, m);
 
     long alpha = G.NumCols();
@@ -563,7 +569,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
     }
 
     // gen alpha
-    zz_p tmp_z = to_zz_p(1);
+    zz_p tmp_z = x0;
     for (long i = 0; i < n; i++)
     {
         X[i][alpha] = e[i]*(power(tmp_z, n)-1);
@@ -606,7 +612,7 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
         tmp_z = tmp_z * b;
     }
 
-    CL = cauchy_like_geometric_lzz_p(X, Y, to_zz_p(1), c, b);
+    CL = cauchy_like_geometric_lzz_p(X, Y, x0, c, b);
 
     // cout << ( CL.to_dense() == 
     //           diagonal_matrix(e) * X_int.to_dense() * M.to_dense() * J_lzz_p(m) * transpose(diagonal_matrix(f) * Y_int.to_dense()) ) << endl;
-- 
2.43.0

