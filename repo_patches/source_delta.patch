From 14678373a47853c6eb7da24557ef0063af180fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 01/76] fix: multiply_evaluate_geometric returned wrong
 dimensions when an operand is zero

---
 .../src/mat_lzz_pX_multiply_evaluate_geometric.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
index 8b380f2..e9a2b05 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
@@ -22,7 +22,7 @@ void multiply_evaluate_geometric(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat
     // if a or b is zero, return
     if (dA < 0 || dB < 0)
     {
-        c.SetDims(s, t);
+        c.SetDims(s, u);
         clear(c);
         return;
     }
-- 
2.43.0


From fcced39975c30c65235373dc9ad30eaab0116ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 02/76] fix: multiply dropped is_prime when the output aliases
 an input

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 1d9c46a..6b987aa 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -24,7 +24,7 @@ void multiply(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b, long i
     if (&c == &a || &c == &b)
     {
         Mat<zz_pX> c2;
-        multiply(c2, a, b);
+        multiply(c2, a, b, is_prime);
         c.swap(c2);
         return;
     }
-- 
2.43.0


From 86838b32201a509160b3e2f53418ac86f5ed6703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 03/76] fix: multiply_waksman divided by 2 modulo even
 composite moduli

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
index 157e245..c19e637 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_naive.cpp
@@ -11,7 +11,7 @@ void multiply_waksman(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b
 {
     const long n = a.NumCols();
 
-    if (zz_p::modulus() == 2 || n < 2)
+    if (zz_p::modulus() % 2 == 0 || n < 2)
     {
         multiply_naive(c, a, b);
         return;
-- 
2.43.0


From 08eb26246ecc71fd63eb0871c8450857ca21615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 04/76] fix: row vector times matrix aborted on swapping with a
 matrix row

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 6b987aa..3d5c61a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -120,7 +120,9 @@ void multiply(Vec<zz_pX>& c, const Vec<zz_pX>& a, const Mat<zz_pX>& b, long is_p
     amat[0] = a;
     Mat<zz_pX> cmat;
     multiply(cmat, amat, b, is_prime);
-    c.swap(cmat[0]);
+    c.SetLength(cmat.NumCols());
+    for (long j = 0; j < cmat.NumCols(); ++j)
+        c[j].swap(cmat[0][j]);
 }
 
 
-- 
2.43.0


From 0d7d4743c19c6322b27ee2bb702245a7cc8e7e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 05/76] fix: multiply_evaluate_FFT_matmul3 dereferenced a null
 array for inner dimension 1

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index c60bd67..2aa6120 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -510,6 +510,9 @@ void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
         tmp.swap(mat_valA[j]);
     }
 
+    // make sure R holds an array (it gave it to RR if a has a single column)
+    R.tbl[0].SetLength(n);
+
     // interpolate c from the values in mat_valA
     c.SetDims(s, u);
     for (long i = 0; i < s; ++i)
-- 
2.43.0


From 48a2a98e918214c1472fc1998f8f476005c75b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 06/76] fix: matrix middle_product returned garbage for a zero
 left operand

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index 0f4e11d..ce6ef44 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -20,6 +20,12 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
     const long degA = deg(a);
+    if (degA < 0)
+    {
+        b.SetDims(a.NumRows(), c.NumCols());
+        clear(b);
+        return;
+    }
     if (degA < dA)
     {
         Mat<zz_pX> cc;
-- 
2.43.0


From 44fe386b4f886d5b9bef0e509eb7abd49f5c320d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 07/76] fix: middle_product_evaluate_FFT_matmul3 dereferenced a
 null array for inner dimension 1

---
 .../src/mat_lzz_pX_middle_product_evaluate_FFT.cpp             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
index 23ba4b0..92a972c 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
@@ -569,6 +569,9 @@ void middle_product_evaluate_FFT_matmul3(Mat<zz_pX> & b, const Mat<zz_pX> & a, c
         tmp.swap(mat_valA[j]);
     }
 
+    // make sure R holds an array (it gave it to RR if a has a single column)
+    R.tbl[0].SetLength(len);
+
     b.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
-- 
2.43.0


From a5e0708668ba9f70a113a2e0c5c40ac093f79df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:56 +0000
Subject: [PATCH 08/76] fix: univariate middle product overflowed its
 accumulator for long operands

---
 ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
index 57efc8f..c2159d8 100644
--- a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
+++ b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
@@ -29,7 +29,7 @@ void tPlainMul2(zz_p *b, long sb, const zz_p *a, long sa, const zz_p *c, long sc
     long p = zz_p::modulus();
     mulmod_t pinv = PrepMulMod(p);
 
-    if (use_long == 0)
+    if (use_long == 0 || sa > KARX) // delayed reduction only safe for at most KARX terms
     {
         for (long i = 0; i < sb; i++)
             b[i].LoopHole() = 0;
-- 
2.43.0


From 3afadae3611a13d4613a25e87d41895754da0168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:31 +0000
Subject: [PATCH 09/76] fix: middle_product_3_primes used too few primes when
 dB < dA

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 8067db4..c9c3c40 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -332,7 +332,8 @@ void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> &
 /*------------------------------------------------------------*/
 void middle_product_3_primes(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c, long dA, long dB)
 {
-    lzz_pX_3_primes primes(a.NumCols(), dA, dB);
+    // each coefficient of the middle product is a sum of (up to) dA+1 products
+    lzz_pX_3_primes primes(a.NumCols(), dA, dA + dB);
     const long nb = primes.nb();
 
     if (nb == 1)
-- 
2.43.0


From 8187814a4d31f9e51941f95a14106fe65246297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:23 +0000
Subject: [PATCH 10/76] fix: get_lmultiplier chose the dense multiplier over
 fields with too few points

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index ae8fe4c..9f9af0f 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -646,7 +646,8 @@ std::unique_ptr<mat_lzz_pX_lmultiplier> get_lmultiplier(const Mat<zz_pX> & a, lo
     }
     else
     {
-        if ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150)
+        // dense evaluates at dA+dB+1 distinct points, which must exist in the field
+        if (std::max(dA, 0L) + dB < zz_p::modulus() && ((a.NumRows() <= 20 && dA <= 30) || (a.NumRows() <= 40 && dA <= 90) || dA <= 150))
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_dense(a, dB));
         else
             return std::unique_ptr<mat_lzz_pX_lmultiplier>(new mat_lzz_pX_lmultiplier_3_primes(a, dB));
-- 
2.43.0


From 9700e89e95197d3bc1c8e5db9f77423d704ea310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:33 +0000
Subject: [PATCH 11/76] fix: left multipliers failed for a zero left or right
 operand

---
 .../src/mat_lzz_pX_lmultiplier.cpp            | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index 9f9af0f..64c9ff3 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -61,7 +61,8 @@ static inline void mul_add(Vec<ll_type>& z, const fftRep& x, const fftRep& y)
 mat_lzz_pX_lmultiplier_FFT_direct::mat_lzz_pX_lmultiplier_FFT_direct(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
-    K = NextPowerOfTwo(__dA + dB + 1);
+    const long nb_points = std::max(__dA, 0L) + dB + 1;
+    K = NextPowerOfTwo(nb_points);
 
     n0 = (1L << (2*(NTL_BITS_PER_LONG - NTL_SP_NBITS))) - 1;
     first_slice = (__t % n0 != 0) ? (__t%n0) : n0;
@@ -71,7 +72,7 @@ mat_lzz_pX_lmultiplier_FFT_direct::mat_lzz_pX_lmultiplier_FFT_direct(const Mat<z
     red1 = sp_PrepRem(pr);
     red2 = make_sp_ll_reduce_struct(pr);
 
-    const long len = FFTRoundUp(__dA + dB + 1, K);
+    const long len = FFTRoundUp(nb_points, K);
     vala.SetLength(__s);
     for (long i = 0; i < __s; ++i)
     {
@@ -98,6 +99,14 @@ void mat_lzz_pX_lmultiplier_FFT_direct::multiply(Mat<zz_pX>& c, const Mat<zz_pX>
     if (dB > __dB)
         LogicError("Rhs degree too large in lmultiplier");
 
+    // zero operand: there is nothing to evaluate
+    if (__dA < 0 || dB < 0)
+    {
+        Mat<zz_pX> zero(INIT_SIZE, __s, b.NumCols());
+        c.swap(zero);
+        return;
+    }
+
     const long cube_dim = NumRows() * NumCols() * b.NumCols();
     const long d = (__dA+dB)/2;
     if (NumBits(zz_p::modulus()) < SMALL_PRIME_SIZE)
@@ -260,14 +269,15 @@ void mat_lzz_pX_lmultiplier_FFT_direct::multiply_direct(Mat<zz_pX>& c, const Mat
 mat_lzz_pX_lmultiplier_FFT_matmul::mat_lzz_pX_lmultiplier_FFT_matmul(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
-    idxk = NextPowerOfTwo(__dA + __dB + 1);
+    const long nb_points = std::max(__dA, 0L) + __dB + 1;
+    idxk = NextPowerOfTwo(nb_points);
 
     // initialize fftRep tools
     fftRep R(INIT_SIZE, idxk);
     Vec<UniqueArray<long>> RR(INIT_SIZE, MATRIX_BLOCK_SIZE);
 
     const long n = 1<<idxk;
-    const long len = FFTRoundUp(__dA + __dB + 1, idxk);
+    const long len = FFTRoundUp(nb_points, idxk);
     va.SetLength(len);
     for (long i = 0; i < len; ++i)
         va[i].SetDims(__s, __t);
@@ -303,6 +313,14 @@ void mat_lzz_pX_lmultiplier_FFT_matmul::multiply(Mat<zz_pX>& c, const Mat<zz_pX>
     if (dB > degB())
         LogicError("Rhs degree too large in multiplier");
 
+    // zero operand: there is nothing to evaluate
+    if (__dA < 0 || dB < 0)
+    {
+        Mat<zz_pX> zero(INIT_SIZE, __s, b.NumCols());
+        c.swap(zero);
+        return;
+    }
+
     // actual wanted length for truncated FFT
     const long len = FFTRoundUp(__dA+dB+1, idxk);
     const long n = 1<<idxk;
@@ -386,7 +404,7 @@ void mat_lzz_pX_lmultiplier_FFT_matmul::multiply(Mat<zz_pX>& c, const Mat<zz_pX>
 mat_lzz_pX_lmultiplier_geometric::mat_lzz_pX_lmultiplier_geometric(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
-    long n = __dA + __dB + 1;
+    long n = std::max(__dA, 0L) + __dB + 1;
     ev = get_geometric_points(n);
     ev.prepare_degree(__dB);
 
@@ -421,6 +439,14 @@ void mat_lzz_pX_lmultiplier_geometric::multiply(Mat<zz_pX>& c, const Mat<zz_pX>&
     if (dB > degB())
         LogicError("Rhs degree too large in multiplier");
 
+    // zero operand: there is nothing to evaluate
+    if (__dA < 0 || dB < 0)
+    {
+        Mat<zz_pX> zero(INIT_SIZE, __s, b.NumCols());
+        c.swap(zero);
+        return;
+    }
+
     long n = ev.length();
     Vec<zz_p> mat_valB;
     Vec<Vec<zz_p>> mat_valC;
@@ -480,11 +506,12 @@ mat_lzz_pX_lmultiplier_dense::mat_lzz_pX_lmultiplier_dense(const Mat<zz_pX> & a,
     mat_lzz_pX_lmultiplier(a, dB)
 {
     Mat<zz_p> vA;
-    vandermonde(vA, vB, iV, __dA, __dB);
+    const long dA = std::max(__dA, 0L);
+    vandermonde(vA, vB, iV, dA, __dB);
     nb_points = vA.NumRows();
 
     // evaluate a: reorganize data
-    Mat<zz_p> tmp_mat(INIT_SIZE, __dA + 1, __s * __t);
+    Mat<zz_p> tmp_mat(INIT_SIZE, dA + 1, __s * __t);
     long ell = 0;
     for (long i = 0; i < __s; ++i)
         for (long j = 0; j < __t; ++j, ++ell)
-- 
2.43.0


From 0f99cca8529b12c8a3fa8b49ab3565e71040e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 12/76] fix: truncRow and truncCol left the other rows or
 columns of the output unset

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index dbf67d7..2bee7e1 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -255,16 +255,18 @@ void trunc(Mat<zz_pX>& x, const Mat<zz_pX>& a, long n)
 
 void truncRow(Mat<zz_pX>& x, const Mat<zz_pX>& a, long r, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long c = 0; c < x.NumCols(); ++c)
-        trunc(x[r][c], a[r][c], n);
+        trunc(x[r][c], x[r][c], n);
 }
 
 void truncCol(Mat<zz_pX>& x, const Mat<zz_pX>& a, long c, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long r = 0; r < x.NumRows(); ++r)
-        trunc(x[r][c], a[r][c], n);
+        trunc(x[r][c], x[r][c], n);
 }
 
 
-- 
2.43.0


From 4fcb846a01c19c9125021fbdde81c7db1295345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 13/76] fix: conv to Vec<Mat<zz_p>> read past the end of
 entries of smaller degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index 2bee7e1..62d91d9 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -573,7 +573,7 @@ void conv(Vec<Mat<zz_p>> & matp, const Mat<zz_pX> & pmat)
         for (long i = 0; i < m; ++i)
             for (long j = 0; j < n; ++j)
                 for (long kk = 0; kk < k_bound; ++kk)
-                    matp[k+kk][i][j] = pmat[i][j][k+kk];
+                    matp[k+kk][i][j] = coeff(pmat[i][j], k+kk);
     }
 }
 
-- 
2.43.0


From 1f4309828ba37e487e979fa0fda48c203894d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:01 +0000
Subject: [PATCH 14/76] fix: add_LeftShift returned unnormalized polynomials
 for b = 0 and failed when c aliases b

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index cebac40..e95300a 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -446,6 +446,18 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
  * `a` but not `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
+   if (IsZero(b))
+   {
+       c = a;
+       return;
+   }
+   if (&c == &b)
+   {
+       const zz_pX bb(b);
+       add_LeftShift(c, a, bb, k);
+       return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 4a58aeaed26eb73d77df334063979e0d115debdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:18 +0000
Subject: [PATCH 15/76] fix: partial linearization failed on entries, columns
 or outputs shorter than the degree bounds

---
 .../src/mat_lzz_pX_linearization.cpp               | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index dde7d1c..fcab6d8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -116,7 +116,7 @@ VecLong column_partial_linearization(
     // parlin_degree[j-1]
     parlin_cols[0]=0;
     for (long j = 1; j < pmat.NumCols()+1; ++j)
-        parlin_cols[j] = parlin_cols[j-1] + ceil( (target_degree[j-1]+1.0) / (parlin_degree[j-1]+1) );
+        parlin_cols[j] = parlin_cols[j-1] + std::max<long>(1, ceil( (target_degree[j-1]+1.0) / (parlin_degree[j-1]+1) ));
 
     // set dimensions of the partial linearization
     parlin.SetDims(pmat.NumRows(), parlin_cols[pmat.NumCols()]);
@@ -137,7 +137,7 @@ VecLong column_partial_linearization(
                 parlin[i][jj].normalize();
             }
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -194,7 +194,7 @@ VecLong column_partial_linearization(
                 parlin[i][jj].normalize();
             }
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -230,7 +230,8 @@ void right_parlin_multiply(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            c[i][j].SetLength(std::max<long>(0, deg_a + column_degree[j] + 1));
+            clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
@@ -272,7 +273,8 @@ void right_parlin_middle_product(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            c[i][j].SetLength(std::max<long>(0, deg_a + target_degree[j] - d_inf + 1));
+            clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
@@ -280,7 +282,7 @@ void right_parlin_middle_product(
                     c[i][j][d_init+d] += coeff(c_parlin[i][jj], d);
                 d_init += parlin_degree+1;
             }
-            //c[i][j].normalize(); // TODO remove?
+            c[i][j].normalize();
             c[i][j] >>= deg(a);  // precompute deg(a)
             trunc(c[i][j], c[i][j], dB+1);
         }
-- 
2.43.0


From 80214268cd23e03daff58d03d7d41b24c4e082f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:29 +0000
Subject: [PATCH 16/76] fix: is_col_popov read past the last column of
 rectangular matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
index 3fe0a74..07c4519 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
@@ -818,7 +818,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
@@ -856,7 +856,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat, const VecLong & shift)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
-- 
2.43.0


From 8aeac3d5e1e190c0046b9b1bf9d816f295f2eb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:01 +0000
Subject: [PATCH 17/76] fix: geometric points of length one were reported as
 s*r instead of s

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 0e4e253..15b8828 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -104,7 +104,7 @@ zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric(const zz_p& r, const zz_p
     if (n==1)
     {
         pts.SetLength(1);
-        mul(pts[0], s, r);
+        pts[0] = s;
     }
 
     // bad case: we have an FFT prime of low order
@@ -255,7 +255,7 @@ zz_p zz_pX_Multipoint_Geometric::get_q() const
 zz_p zz_pX_Multipoint_Geometric::get_s() const
 {
     if (n == 1)
-        return to_zz_p(1);
+        return pts[0];
     else
         return xs[1] / x[1];
 }
-- 
2.43.0


From 32bd1a1da255cb70b9dd096d5cc279472f288945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:23 +0000
Subject: [PATCH 18/76] fix: shifted row degrees returned by kernel_basis_zls_*
 lacked the removed constant on early exits

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ab06b2e..b47d499 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -492,6 +492,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -539,6 +541,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -733,6 +737,8 @@ void kernel_basis_zls_via_interpolation(
     zz_p r; // defining geometric points r^2, r^4, r^6...
     if (2*order >= zz_p::modulus()) // small field --> approximation
     {
+        for (long & s : shift)
+            s += diff_shift;
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -741,6 +747,8 @@ void kernel_basis_zls_via_interpolation(
     if (IsZero(r))
     {
         std::cout << "Could not find element of sufficiently large order; field is probably too small for kernel via interpolation with such degrees --> calling the approximation version" << std::endl;
+        for (long & s : shift)
+            s += diff_shift;
         kernel_basis_zls_via_approximation(kerbas, pmat, shift);
         return;
     }
@@ -804,6 +812,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
@@ -858,6 +868,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        for (long i = 0; i < m1; ++i)
+            shift[i] += diff_shift;
         return;
     }
 
-- 
2.43.0


From 41ffda0dbbd00eaf1670475436437c16b7e059c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:52 +0000
Subject: [PATCH 19/76] fix: kernel_basis_zls_via_interpolation asked for fewer
 points than the degree allows when row degrees are unbalanced

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index b47d499..3ce3c36 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -729,7 +729,8 @@ void kernel_basis_zls_via_interpolation(
     // choosing this order (with factor 2) is sufficient to ensure that the
     // interpolant basis captures the whole kernel when n <= m/2 and pmat is
     // sufficiently generic
-    const long order = 2 * ceil((double)rho / n) + 1;
+    // (it must also exceed the degree of pmat, as required by pmbasis_geometric)
+    const long order = std::max<long>(2 * ceil((double)rho / n) + 1, deg(pmat) + 1);
 
     // compute interpolant basis, along with shift-row degree and pivot degree
     // --> it does not necessarily capture the whole kernel; but does in two
-- 
2.43.0


From 8712b23a7dcfaec52c6184123a39e2a8d30f60d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:33 +0000
Subject: [PATCH 20/76] fix: Newton truncated inverses kept stale coefficients
 of a reused output matrix

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 1e0d55f..6356209 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -212,7 +212,10 @@ void newton_inv_trunc_FFT(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long thres
                 zz_pX P;
                 FromfftRep(P, R1, 0, k - 1);
 
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
@@ -405,7 +408,10 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
             {
                 zz_pX P;
                 ev.interpolate(P, mat_val3[i*s + ell]);
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
-- 
2.43.0


From ba3001352b80396a1057dd22a8870c463b1079b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:33 +0000
Subject: [PATCH 21/76] fix: newton_inv_trunc_geometric failed when starting
 from precision one

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 6356209..8ee3c37 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -335,7 +335,7 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
 
     while (k < m)
     {
-        long n = 3*k - 2;
+        const long n = std::max<long>(3*k - 2, 2*k); // 2*k is for k == 1
         zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
 
         ev.prepare_degree(k - 1);
-- 
2.43.0


From 7bd1014606d839bbe852256b5214e1e67bf04568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 22/76] fix: linsolve_via_series overwrote its aliased
 right-hand side when the matrix is constant

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 6c927da..a580bce 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -314,7 +314,7 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
     {
         Mat<zz_p> iA;
         inv(iA, coeff(A, 0));
-        u.SetLength(n);
+        Vec<zz_pX> sol(INIT_SIZE, n); // temporary since u may alias b
         // TODO write function for mul(u, iA, b);
         zz_pX buf1, buf2;
         for (long i = 0; i < n; ++i)
@@ -325,8 +325,9 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
                 mul(buf2, iA[i][j], b[j]);
                 add(buf1, buf1, buf2);
             }
-            u[i].swap(buf1);
+            sol[i].swap(buf1);
         }
+        u.swap(sol);
         set(den);
         return;
     }
-- 
2.43.0


From 458592aac7b26340d13c60b5b5789f39e2bedc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:40 +0000
Subject: [PATCH 23/76] fix: linsolve_via_kernel reported no solution when the
 denominator is not the pivot entry

---
 .../src/mat_lzz_pX_linsolve.cpp               | 20 ++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index a580bce..b1ed5c6 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -485,14 +485,20 @@ long linsolve_via_kernel(
     // find index of row of kerbas with pivot index in the last entry
     VecLong::const_iterator pivind_n = std::find(pivind.begin(), pivind.end(), n);
 
-    // if no such row, there is no solution
-    // --> may happen if kernel is empty, which itself may happen only if m > n
-    // --> may also happen if A is rank-deficient but b is not in the
-    // K(x)-column space of A, then kerbas is simply a kernel basis for A
+    // if no such row (which may happen when cancellations make the degree of
+    // den smaller than expected), take a row with nonzero last entry
+    // --> there is none only if b is not in the K(x)-column space of A (in
+    // particular if the kernel is empty, which may happen only if m > n): then,
+    // there is no solution
+    long row = pivind_n - pivind.begin();
     if (pivind_n==pivind.end())
-        return 0;
-
-    const long row = pivind_n - pivind.begin();
+    {
+        row = 0;
+        while (row < kerbas.NumRows() && IsZero(kerbas[row][n]))
+            ++row;
+        if (row == kerbas.NumRows())
+            return 0;
+    }
 
     // deduce solution
     u.SetLength(n);
-- 
2.43.0


From 00867086beaf7ada3426d3aa58bbf60ce79439ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:36 +0000
Subject: [PATCH 24/76] fix: evaluation-based determinants crashed or did not
 terminate on the zero matrix

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 009a7a1..e2b9ac1 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -293,6 +293,12 @@ void determinant_via_linsolve(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    if (deg(pmat) < 0)
+    {
+        clear(det);
+        return;
+    }
+
     const long nb_points = pmat.NumRows() * deg(pmat) + 1;
     zz_pX_Multipoint_General ev = get_general_points(nb_points);
     Vec<Mat<zz_p>> evals;
@@ -306,6 +312,12 @@ void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 {
     const long d = deg(pmat);
+    if (d < 0)
+    {
+        clear(det);
+        return;
+    }
+
     const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_Geometric ev = get_geometric_points(nb_points);
     ev.prepare_degree(d);
-- 
2.43.0


From 17396cb2edb6c010dd6903e50791031ec0740e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:36 +0000
Subject: [PATCH 25/76] fix: determinant_generic_knowing_degree reported
 success with a wrong determinant when its kernel basis was not one

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index e2b9ac1..1c31a27 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -269,6 +269,16 @@ bool determinant_generic_knowing_degree(zz_pX & det, const Mat<zz_pX> & pmat, lo
         for (long j = 0; j < dim; ++j)
             kerbas[i][j] = appbas[i+cdim1][j];
 
+    // rows of degree at most deg_ker are in the kernel by choice of the order;
+    // otherwise (non-generic pmat), verify that this is a kernel basis
+    if (deg(kerbas) > deg_ker)
+    {
+        Mat<zz_pX> prod;
+        multiply(prod, kerbas, pmat_l);
+        if (not IsZero(prod))
+            return false;
+    }
+
     // then compute the product
     Mat<zz_pX> pmatt;
 #ifdef GENERIC_DET_PROFILE
-- 
2.43.0


From 2ef73d9f90239c5d1fff23ad1e7cfbb4bc00be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:57 +0000
Subject: [PATCH 26/76] fix: reduced_form_gjv crashed on constant matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
index 3e692fe..38146a2 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_reduction.cpp
@@ -13,6 +13,14 @@ long reduced_form_gjv(
     // dimensions
     const long dim = pmat.NumCols();
     const long d = deg(pmat);
+
+    // an invertible constant matrix is already row reduced
+    if (d == 0)
+    {
+        reduced = pmat;
+        return 1;
+    }
+
     std::cout << dim << "\t" << d << "\t";
 
     // inv_trunc version
-- 
2.43.0


From b3e94fa1222faccec16c81909e02e63d1bf9d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 27/76] fix: structured_lzz_p matrix products with empty bodies

lower triangular Toeplitz, circulant, and Toeplitz/Hankel-like matrices left the
output of mul_right(Mat) / mul_left(Mat) untouched.
---
 .../src/circulant_column_lzz_p.cpp            | 12 ++-----
 .../src/circulant_row_lzz_p.cpp               | 13 ++-----
 .../src/hankel_like_minus_lzz_p.cpp           | 12 +++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 12 +++++++
 .../src/lower_triangular_toeplitz_lzz_p.cpp   | 12 ++-----
 .../src/toeplitz_like_minus_lzz_p.cpp         | 12 +++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 12 +++++++
 .../structured_lzz_p/structured_lzz_p.h       | 36 +++++++++++++++++++
 8 files changed, 90 insertions(+), 31 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index fe33fbf..2d2595d 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -171,11 +171,7 @@ void circulant_column_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) c
         LogicError("Wrong size for circulant_column_lzz_p right matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_right(input);
-        return;
-    }
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -242,11 +238,7 @@ void circulant_column_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) co
         LogicError("Wrong size for circulant_column_lzz_p left matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_left(input);
-        return;
-    }
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
index 0ccf51f..1836d60 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
@@ -152,12 +152,7 @@ void circulant_row_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) cons
         LogicError("Wrong size for circulant_row_lzz_p right matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_right(input);
-        return;
-    }
-    Error ("not implemented yet."); // todo: move to structured_lzz_p.cpp
+    mul_right_by_columns(res, input);
 }
 
 /*------------------------------------------------------------*/
@@ -244,11 +239,7 @@ void circulant_row_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) const
         LogicError("Wrong size for circulant_row_lzz_p left matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_left(input);
-        return;
-    }
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ee35dac..cc6c19f 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -113,6 +113,12 @@ void hankel_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inpu
 
 void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+    {
+        LogicError("Wrong size for hankel_like_minus_lzz_p right matrix multiplication.");
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -124,6 +130,12 @@ void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) cons
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+    {
+        LogicError("Wrong size for hankel_like_minus_lzz_p left matrix multiplication.");
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index a6d7c7d..d785bbd 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -109,6 +109,12 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
 
 void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+    {
+        LogicError("Wrong size for hankel_like_plus_lzz_p right matrix multiplication.");
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -120,6 +126,12 @@ void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+    {
+        LogicError("Wrong size for hankel_like_plus_lzz_p left matrix multiplication.");
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index 4f89305..a5be01b 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -120,11 +120,7 @@ void lower_triangular_toeplitz_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>&
         LogicError("Bad size for lower_triangular_toeplitz_lzz_p right matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_right(input);
-        return;
-    }
+    mul_right_by_columns(res, input);
 }
 
 
@@ -186,11 +182,7 @@ void lower_triangular_toeplitz_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>&
         LogicError("Bad size for lower_triangular_toeplitz_lzz_p left matrix multiplication.");
     }
 
-    if (&res == &input)
-    {
-        res = mul_left(input);
-        return;
-    }
+    mul_left_by_rows(res, input);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a9478eb..3316608 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -114,6 +114,12 @@ void toeplitz_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& in
 
 void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+    {
+        LogicError("Wrong size for toeplitz_like_minus_lzz_p right matrix multiplication.");
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -125,6 +131,12 @@ void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) co
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+    {
+        LogicError("Wrong size for toeplitz_like_minus_lzz_p left matrix multiplication.");
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index f2d4100..343b0c2 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -105,6 +105,12 @@ void toeplitz_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inp
 
 void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumRows() != n)
+    {
+        LogicError("Wrong size for toeplitz_like_plus_lzz_p right matrix multiplication.");
+    }
+
+    mul_right_by_columns(out, in);
 }
 
 /*------------------------------------------------------------*/
@@ -116,6 +122,12 @@ void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) con
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (in.NumCols() != m)
+    {
+        LogicError("Wrong size for toeplitz_like_plus_lzz_p left matrix multiplication.");
+    }
+
+    mul_left_by_rows(out, in);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/structured_lzz_p.h b/ntl-extras/structured_lzz_p/structured_lzz_p.h
index a7ba93b..0df700b 100644
--- a/ntl-extras/structured_lzz_p/structured_lzz_p.h
+++ b/ntl-extras/structured_lzz_p/structured_lzz_p.h
@@ -77,6 +77,42 @@ public:
         to_dense(dense);
         return dense;
     }
+
+protected:
+    /*------------------------------------------------------------*/
+    /* matrix products, one vector at a time                      */
+    /* (for the classes with no dedicated matrix algorithm)       */
+    /*------------------------------------------------------------*/
+    inline void mul_right_by_columns(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        Mat<zz_p> res;
+        Vec<zz_p> col, prod;
+        res.SetDims(NumRows(), in.NumCols());
+        col.SetLength(in.NumRows());
+        for (long j = 0; j < in.NumCols(); j++)
+        {
+            for (long i = 0; i < in.NumRows(); i++)
+                col[i] = in[i][j];
+            mul_right(prod, col);
+            for (long i = 0; i < res.NumRows(); i++)
+                res[i][j] = prod[i];
+        }
+        out.swap(res);
+    }
+
+    inline void mul_left_by_rows(Mat<zz_p>& out, const Mat<zz_p>& in) const
+    {
+        Mat<zz_p> res;
+        Vec<zz_p> prod;
+        res.SetDims(in.NumRows(), NumCols());
+        for (long i = 0; i < in.NumRows(); i++)
+        {
+            mul_left(prod, in[i]);
+            for (long j = 0; j < res.NumCols(); j++)
+                res[i][j] = prod[j];
+        }
+        out.swap(res);
+    }
 };
 
 
-- 
2.43.0


From 8a6a9f6a44b4beab4d03a427942ffcf132537a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 28/76] fix: vector mul_left of Toeplitz-like and Hankel-like
 matrices had an empty body

---
 .../src/hankel_like_minus_lzz_p.cpp           | 27 +++++++++++++++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 23 ++++++++++++++++
 .../src/toeplitz_like_minus_lzz_p.cpp         | 23 ++++++++++++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 23 ++++++++++++++++
 4 files changed, 96 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index cc6c19f..8de2621 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -126,6 +126,33 @@ void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) con
 /*------------------------------------------------------------*/
 void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+    {
+        LogicError("Wrong size for hankel_like_minus_lzz_p left multiplication.");
+    }
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp0, tmp1, tmp2;
+    tmp0.SetLength(m);
+    for (long i = 0; i < m; i++)
+        tmp0[i] = in[m - 1 - i];
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        lower_triangular_toeplitz_G[i].mul_left(tmp1, tmp0);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index d785bbd..ae34ff4 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -122,6 +122,29 @@ void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 /*------------------------------------------------------------*/
 void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+    {
+        LogicError("Wrong size for hankel_like_plus_lzz_p left multiplication.");
+    }
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[n - 1 - j];
+    }
 }
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index 3316608..43cccee 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -127,6 +127,29 @@ void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) c
 /*------------------------------------------------------------*/
 void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+    {
+        LogicError("Wrong size for toeplitz_like_minus_lzz_p left multiplication.");
+    }
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        toeplitz_G[i].mul_left(tmp1, in);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index 343b0c2..016831f 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -118,6 +118,29 @@ void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) co
 /*------------------------------------------------------------*/
 void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (in.length() != m)
+    {
+        LogicError("Wrong size for toeplitz_like_plus_lzz_p left multiplication.");
+    }
+
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
-- 
2.43.0


From c0e5dbe00d2ec50ce5b57015dae564cce96f8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 29/76] fix: structured_lzz_p to_dense does not depend on the
 previous contents of its output

---
 ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp      | 1 +
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp       | 1 +
 .../structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp     | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp    | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp     | 1 +
 5 files changed, 5 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index 8de2621..6bf1348 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -171,6 +171,7 @@ void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 void hankel_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += lower_triangular_toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index ae34ff4..e222b4e 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -163,6 +163,7 @@ void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 void hankel_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index a5be01b..f9febb4 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -62,6 +62,7 @@ long lower_triangular_toeplitz_lzz_p::NumRows() const
 void lower_triangular_toeplitz_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index 43cccee..b6ac176 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -168,6 +168,7 @@ void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) co
 void toeplitz_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index 016831f..e9a8829 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -159,6 +159,7 @@ void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) con
 void toeplitz_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
-- 
2.43.0


From 6b0e8dc332b7331bad930959d039c8f2e15bc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 30/76] fix: toeplitz_like_plus / hankel_like_plus division by
 zero for matrices with no row

---
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp   | 3 +++
 ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index e222b4e..d39b339 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -37,6 +37,9 @@ hankel_like_plus_lzz_p::hankel_like_plus_lzz_p(const Mat<zz_p>& U, const Mat<zz_
 
     circulant_G.SetLength(alpha);
     lower_triangular_toeplitz_H.SetLength(alpha);
+
+    if (m == 0 || n == 0)
+        return;
     
     Vec<zz_p> vecG, vecH;
     vecG.SetLength(m);
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index e9a8829..aea876d 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -37,6 +37,9 @@ toeplitz_like_plus_lzz_p::toeplitz_like_plus_lzz_p(const Mat<zz_p>& U, const Mat
 
     circulant_G.SetLength(alpha);
     lower_triangular_toeplitz_H.SetLength(alpha);
+
+    if (m == 0 || n == 0)
+        return;
     
     Vec<zz_p> vecG, vecH;
     vecG.SetLength(m);
-- 
2.43.0


From 2b097161a75a80a127ebd05192adcf6f02f4e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 31/76] fix: circulant_column mul_left overflows its buffer
 when there are more rows than columns

---
 ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index 2d2595d..6f018ed 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -194,7 +194,7 @@ void circulant_column_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) co
     fftRep fft_input = fftRep(INIT_SIZE, K);
     
     zz_pX input_X;
-    input_X.rep.SetLength(m);
+    input_X.rep.SetLength(n);
     zz_p *cf = input_X.rep.elts();
     for (long i = 0; i < n; i++)
             cf[i] = input[i];
-- 
2.43.0


From 76b43609feaf4e177707ac31fa704b34977bc9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 32/76] fix: sylvester_lzz_p phi_plus_generators wrote out of
 bounds for constant b

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 641ae98..a732846 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -449,7 +449,11 @@ void sylvester_lzz_p::phi_plus_generators(Mat<zz_p>& G, Mat<zz_p>& H) const
         G[i][0] = 0;
         G[i][1] = 0;
     }
-    H[deg(b) - 1][0] = 1;
+    if (n == 0)
+        return;
+
+    if (deg(b) > 0)
+        H[deg(b) - 1][0] = 1;
     H[deg(a) + deg(b) - 1][1] = 1;
 
     for (long i = 0; i < deg(a); i++)
-- 
2.43.0


From ce756f11a7c5fa7b756e848778c3ed205f953eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:38 +0000
Subject: [PATCH 33/76] fix: sylvester_lzz_p top_right_block_inverse read past
 the end of the Bezout coefficients

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index a732846..0973adc 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -518,13 +518,13 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
     zz_pX rS;
     rS.rep.SetLength(dB);
     for (long i = 0; i < dB; i++)
-        rS[i] = s[dB - 1 - i];
+        rS[i] = coeff(s, dB - 1 - i);
     rS.normalize();
 
     zz_pX rT;
     rT.rep.SetLength(dA);
     for (long i = 0; i < dA; i++)
-        rT[i] = t[dA - 1 - i];
+        rT[i] = coeff(t, dA - 1 - i);
     rT.normalize();
 
     zz_pX rS_over_rB, R_rS_rB, rT_over_rA, R_rT_rA;
-- 
2.43.0


From cdb186013fb04ce3209a111c2e4f0bf4f192bcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:08 +0000
Subject: [PATCH 34/76] fix: mosaic Hankel / Toeplitz solve wrote past an empty
 vector for systems with no solution

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 6 ++++++
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 574e30d..b6f09d4 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -623,6 +623,12 @@ long mosaic_hankel_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh, lo
 
     if (s != 1)
         return 0;
+
+    if (xp.length() != m) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 4b70add..d49b328 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -641,6 +641,12 @@ long mosaic_toeplitz_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh,
 
     if (s != 1)
         return 0;
+
+    if (xp.length() != m) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
-- 
2.43.0


From be6a17a1ba31903dc6bba9583dd3d49ad6d32662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:08 +0000
Subject: [PATCH 35/76] fix: mosaic Hankel / Toeplitz preconditioners drew zero
 diagonal entries

With a zero entry in e, a row of the system is dropped and a wrong solution
is returned as a success.
---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 ++++++--
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index b6f09d4..949ce19 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -503,11 +503,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
     Vec<zz_p> tmp_v;
     for (long j = 0; j < alpha; j++)
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index d49b328..76a1393 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -512,11 +512,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
 
     // gens 0 to alpha-1
-- 
2.43.0


From 6d5ff709ec3468c5ba9fe82dfb0e98d19c7e5cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:57 +0000
Subject: [PATCH 36/76] fix: cauchy_like_geometric solve_grp raised an error on
 matrices of rank zero

---
 .../src/cauchy_like_geometric_lzz_p.cpp       | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
index 52f3438..02de1cc 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
@@ -1025,14 +1025,17 @@ long cauchy_like_geometric_lzz_p::solve_grp(Vec<zz_p>& x, const Vec<zz_p> b, lon
     for (long i = rk; i < m; i++)
         x[i] = random_zz_p();
 
-    mul_right(tmp_out, x);
-    for (long i = 0; i < rk; i++)
-        tmp_out[i] = b[i] - tmp_out[i];
-    tmp_out.SetLength(rk);
-    
-    iCL.mul_right(top, tmp_out);
-    for (long i = 0; i < rk; i++)
-        x[i] = top[i];
+    if (rk > 0)
+    {
+        mul_right(tmp_out, x);
+        for (long i = 0; i < rk; i++)
+            tmp_out[i] = b[i] - tmp_out[i];
+        tmp_out.SetLength(rk);
+
+        iCL.mul_right(top, tmp_out);
+        for (long i = 0; i < rk; i++)
+            x[i] = top[i];
+    }
 
     if (mul_right(x) != b)
     {
-- 
2.43.0


From bcdf3de4857671cfb4d681afbd9ea921c1c0fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:51 +0000
Subject: [PATCH 37/76] fix: sylvester_lzz_pX products by zero vectors used a
 negative Kronecker step

---
 .../src/sylvester_lzz_pX.cpp                  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index d13ee8b..22f3dee 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -81,8 +81,8 @@ void sylvester_lzz_pX::mul_right(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     for (long i = 0; i < dAy; i++)
         in_G[i] = in[i + dBy];
 
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L);    
+    long dGx = max(deg(in_G), 0L);
 
     to_kronecker(kro_A, a, dAx + dFx);  
     to_kronecker(kro_F, in_F, dAx + dFx); 
@@ -137,8 +137,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(in_F[i], in[i], s);
     for (long i = 0; i < dAy; i++)
         trunc(in_G[i], in[i + dBy], s);
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L);    
+    long dGx = max(deg(in_G), 0L);
 
     Vec<zz_pX> truncA, truncB;
     truncA.SetLength(a.length());
@@ -147,8 +147,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(truncA[i], a[i], s);
     for (long i = 0; i < b.length(); i++)
         trunc(truncB[i], b[i], s);
-    long dTAx = deg(truncA);
-    long dTBx = deg(truncB);
+    long dTAx = max(deg(truncA), 0L);
+    long dTBx = max(deg(truncB), 0L);
 
     to_kronecker(kro_A, truncA, dTAx + dFx);  
     to_kronecker(kro_F, in_F, dTAx + dFx); 
@@ -202,7 +202,7 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         return;
     }
 
-    long d = deg(in);
+    long d = max(deg(in), 0L);
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
     to_kronecker(kro_revA, revA, dAx + d);  
@@ -270,9 +270,9 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     for (long i = 0; i < revB.length(); i++)
         trunc(revB_trunc[i], revB[i], s);
 
-    long d = deg(in_trunc);
-    long dTAx = deg(revA_trunc);
-    long dTBx = deg(revB_trunc);
+    long d = max(deg(in_trunc), 0L);
+    long dTAx = max(deg(revA_trunc), 0L);
+    long dTBx = max(deg(revB_trunc), 0L);
 
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
-- 
2.43.0


From 9818c476818725b46de768840661f2fb535a34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:51 +0000
Subject: [PATCH 38/76] fix: sylvester_lzz_pX phi_plus_generators wrote out of
 bounds for b of degree zero

---
 ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index 22f3dee..0f33b04 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -344,7 +344,11 @@ void sylvester_lzz_pX::phi_plus_generators(Mat<zz_pX>& G, Mat<zz_pX>& H) const
         G[i][0] = 0;
         G[i][1] = 0;
     }
-    H[dBy - 1][0] = 1;
+    if (n == 0)
+        return;
+
+    if (dBy > 0)
+        H[dBy - 1][0] = 1;
     H[dAy + dBy - 1][1] = 1;
 
     for (long i = 0; i < dAy; i++)
-- 
2.43.0


From 7cb8b764bf9e49c3b64fc6e15635e743d0ff5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:05 +0000
Subject: [PATCH 39/76] fix: Newton inversion of Sylvester matrices whose
 leading coefficients vanish at zero

The inverse at zero was computed for a matrix of smaller size.
---
 .../src/sylvester_lzz_pX.cpp                  | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index 0f33b04..eeeab54 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -401,21 +401,36 @@ void sylvester_lzz_pX::newton_inv_trunc(toeplitz_like_minus_lzz_pX& iM, long m)
     for (long i = 0; i < b.length(); i++)
         SetCoeff(b0, i, coeff(b[i], 0));
 
-    if (deg(a0) == 0 || deg(b0) == 0)
+    if (dAy == 0 || dBy == 0)
     {
         Error("Degree must be positive in newton_inv_trunc");
     }
 
-    sylvester_lzz_p S(a0, b0);
-    toeplitz_like_minus_lzz_p iS;
-    long r = S.inv(iS);
+    Mat<zz_pX> G, H; // generators of iM;
+    if (deg(a0) == dAy && deg(b0) == dBy)
+    {
+        sylvester_lzz_p S(a0, b0);
+        toeplitz_like_minus_lzz_p iS;
+        long r = S.inv(iS);
 
-    if (r == 0)
-        Error("Sylvester matrix not invertible at zero");
+        if (r == 0)
+            Error("Sylvester matrix not invertible at zero");
 
-    Mat<zz_pX> G, H; // generators of iM;
-    G = conv(iS.G);  
-    H = transpose(conv(iS.H));  
+        G = conv(iS.G);
+        H = transpose(conv(iS.H));
+    }
+    else // a leading coefficient vanishes at zero: M(0) is not the Sylvester matrix of a0, b0
+    {
+        Mat<zz_p> M0, iM0;
+        zz_p d;
+        GetCoeff(M0, to_dense(), 0);
+        inv(d, iM0, M0);
+        if (d == 0)
+            Error("Sylvester matrix not invertible at zero");
+
+        G = conv(-(iM0 * coeff(U, 0)));
+        H = conv(transpose(coeff(V, 0)) * iM0);
+    }
 
     iM = toeplitz_like_minus_lzz_pX(G, transpose(H));
 
-- 
2.43.0


From b5fb70b1f3104f9e1d610651672f9248124ae072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:05 +0000
Subject: [PATCH 40/76] fix: structured_lzz_pX to_dense does not depend on the
 previous contents of its output

---
 .../structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp   | 1 +
 ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
index 2cc33ed..44dc71a 100644
--- a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
@@ -92,6 +92,7 @@ long lower_triangular_toeplitz_lzz_pX::NumRows() const
 void lower_triangular_toeplitz_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
index 6b9f25d..6012c6a 100644
--- a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
@@ -198,6 +198,7 @@ void toeplitz_like_minus_lzz_pX::mul_left_trunc(Vec<zz_pX>& output, const Vec<zz
 void toeplitz_like_minus_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
-- 
2.43.0


From d4cb2dc84814228a6bc330d92d7e409a5deefd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 41/76] fix: zz_pX_Multipoint_General::t_evaluate ignored
 output_size

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
index 57860d0..e5c3f1b 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_General.cpp
@@ -160,7 +160,12 @@ void zz_pX_Multipoint_General::t_evaluate(zz_pX& f, const Vec<zz_p>& val, long o
     zz_pX rev_num, num;
     up_tree(rev_num, tree, val);
     num = reverse(rev_num, n-1);
-    f = MulTrunc(num, inverse_root, n);
+    if (output_size == -1)
+        output_size = n;
+    if (output_size <= n)
+        f = MulTrunc(num, inverse_root, output_size);
+    else // inverse_root is only known modulo x^n
+        f = MulTrunc(num, InvTrunc(reverse_root, output_size), output_size);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From d697cba5364a2b7c834615bfc30e3959df82e544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 42/76] fix: geometric evaluation in place lost the input
 polynomial

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 15b8828..1a70646 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -272,6 +272,14 @@ zz_p zz_pX_Multipoint_Geometric::get_s() const
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& P) const
 {
+    if (&val == &P.rep)
+    {
+        Vec<zz_p> tmp;
+        evaluate(tmp, P);
+        val = tmp;
+        return;
+    }
+
     zz_pX a, b;
     long dp = deg(P);
 
-- 
2.43.0


From 9a31f1f1aff985bfa07541074126396bd143a1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 43/76] fix: Taylor shift of the zero polynomial in large
 characteristic

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index e95300a..0f91e88 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -367,6 +367,9 @@ void zz_pX_shift_DAC::shift(zz_pX& g, const zz_pX& f) const
 zz_pX_shift_large_characteristic::zz_pX_shift_large_characteristic(long d, const zz_p& c) 
     : zz_pX_shift(d)
 {
+    if (d < 0)
+        return;
+
     // fact contains the factorials 0!, 1!, 2!, ..., d!
     fact.SetLength(d+1);
     set(fact[0]);
-- 
2.43.0


From f34210f17d44735337bff8d51f36f21a7c94ce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 44/76] fix: shift_y in place shifted twice

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index cff28e6..733db66 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -355,6 +355,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     if (&b == &a)
     {
         b = shift_y(a, i);
+        return;
     }
 
     long dy = a.degY();
-- 
2.43.0


From ff7dfb453e7655cd4db2b5afb7a228f14e95b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 45/76] fix: shift_y by more than the degree raised an error

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 733db66..69322ca 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -369,7 +369,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     }
     else
     {
-        b.rep.SetLength(dy + 1 + i);
+        b.rep.SetLength(max(dy + 1 + i, 0L));
         for (long j = 0; j <= dy + i; j++)
             b.rep[j] = a.rep[j - i];
     }
-- 
2.43.0


From 36f2de0a5622cdc3f610491d4bb8d7dbce70dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:46 +0000
Subject: [PATCH 46/76] fix: random_zz_pXY returned polynomials with vanishing
 leading coefficients

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 69322ca..c17d183 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -112,6 +112,7 @@ void random_zz_pXY(zz_pXY&  f, long dx, long dy)
     f.rep.SetLength(dy);
     for (long i = 0; i < dy; i++)
         f.rep[i] = random_zz_pX(dx);
+    f.normalize();
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 6e1d57a34e89238a2daf86417d9672fc55662cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:13 +0000
Subject: [PATCH 47/76] fix: geometric evaluation at zero points returned a
 vector of the wrong length

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 1a70646..c763a7b 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -361,6 +361,7 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& f, long n
 
     if (nb == 0) 
     {
+        val.SetLength(0);
         return;
     }
     
-- 
2.43.0


From 9f8453b2ae72ed37f58aafa325ee38f712e98871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:02 +0000
Subject: [PATCH 48/76] fix: product of a sequence by a bivariate polynomial
 was always empty

As a consequence check_cancel accepted every polynomial.
---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 324badb..a20f092 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -28,7 +28,8 @@ Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pX &a){
 Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pXY &f){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
@@ -52,7 +53,8 @@ Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pX &a){
 Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pXY &f){
   Vec<Vec<zz_pX>> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     Vec<zz_pX> val;
     val.SetLength(S[i].length());
@@ -78,7 +80,8 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  if (dy < 0) return res;
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-- 
2.43.0


From 5095087a620049387402d76aca78ad1958c9920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:02 +0000
Subject: [PATCH 49/76] fix: truncated product of a sequence by a bivariate
 polynomial kept only the last term

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index a20f092..20783fa 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -85,7 +85,7 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      MulTrunc(val, f.rep[t], S[i+t], d);
+      val += MulTrunc(f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
-- 
2.43.0


From 0ec37451e942244fae4905ad698e46d2ad2fbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:02 +0000
Subject: [PATCH 50/76] fix: modified_kurakin read past the end of sequences
 that vanish modulo x^d

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 20783fa..4964c7e 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -423,6 +423,7 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
     }
 
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
+    if (k < 0 || k >= u.length()) continue;
     long tprime = d - valuation(u[k]);
     if (tprime+t < d){ 
       // this means that x^(t'+t) is non-zero and x^(t'+t) *S 
@@ -836,6 +837,7 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
     }
 
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
+    if (k < 0 || k >= u.length()) continue;
     long tprime = d - valuation(u[k]);
     if (tprime+t < d && !bitmap[tprime+t]){
       bitmap[tprime+t] = true;
-- 
2.43.0


From f9c17c4c96d2bde715de09b6275450745be2e101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:10 +0000
Subject: [PATCH 51/76] fix: berlekamp_massey_pmbasis appended to the previous
 contents of its output

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 4964c7e..6cbc31e 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -1054,6 +1054,7 @@ void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
   VecLong rdeg;
   for (long i = 0; i < n+1; i++) rdeg.emplace_back(0);
   pmbasis(appbas,T,d,rdeg);
+  gens.SetLength(0);
   for (long r = 0; r < n+1; r++){
     zz_pXY res;
     for (long c = 0; c < n+1; c++)
@@ -1078,6 +1079,7 @@ void berlekamp_massey_pmbasis(const long d, const Vec<Module> &S,
   VecLong rdeg;
   for (long i = 0; i < e+1; i++) rdeg.emplace_back(0);
   pmbasis(appbas, H, d, rdeg);
+  gens.SetLength(0);
   for (long r= 0; r < e+1; r++){
     zz_pXY res;
     for (long c = 0; c < e+1; c++)
@@ -1119,6 +1121,7 @@ void berlekamp_massey_pmbasis_hnf(const long d, const Vec<Module> &S,
     rdeg.emplace_back(i*d);
   }
   pmbasis(appbas, H, d, rdeg);
+  gens.SetLength(0);
   for (long r= 0; r < e+1; r++){
     zz_pXY res;
     for (long c = 0; c < e+1; c++)
@@ -1295,6 +1298,7 @@ void berlekamp_massey_pmbasis_compressed(const long d, const Vec<Module> &S,
   VecLong rdeg;
   for (long i = 0; i < e+1; i++) rdeg.emplace_back(0);
   pmbasis(appbas, compressed, d, rdeg);
+  gens.SetLength(0);
   for (long r= 0; r < e+1; r++){
     zz_pXY res;
     for (long c = 0; c < e+1; c++)
-- 
2.43.0


From 652727e00376b146a2f5e9e03faf91cfa8f07888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:29 +0000
Subject: [PATCH 52/76] fix: valuation of a vector with a zero entry was -1

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 6cbc31e..ac58021 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -795,9 +795,10 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 // if a is zero
 long valuation(const Module &a){
   if (is_zero_seq(a)) return -1;
-  long min_val = valuation(a[0]);
-  for(long i = 1; i < a.length(); i++){
-    if (min_val > valuation(a[i])) min_val = valuation(a[i]);
+  long min_val = -1;
+  for(long i = 0; i < a.length(); i++){
+    long val = valuation(a[i]);
+    if (val >= 0 && (min_val < 0 || min_val > val)) min_val = val;
   }
   return min_val;
 }
-- 
2.43.0


From 725ecef8f91bf7d44bb21165d54f086b0c352675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:29 +0000
Subject: [PATCH 53/76] fix: kurakin over vectors stopped reducing after two
 steps

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index ac58021..552e971 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -713,8 +713,7 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 	std::cout << "u: " << u << std::endl;
       }
 
-      long temp_counter = 0;
-      while (temp_counter++ < 2){
+      while (true){
 	if (u.length() == 0) break;
 	if (is_zero_seq(u)) break;
 
-- 
2.43.0


From bef0fbda4450437a622a5253b9e9ee4e46e9cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:56 +0000
Subject: [PATCH 54/76] fix: is_interpolant_basis_geometric raised an error for
 bases of degree equal to the number of points

---
 .../src/mat_lzz_pX_interpolant.cpp            | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 9f760ff..6ddc1ce 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -68,6 +68,21 @@ bool is_interpolant_basis(
     return true;
 }
 
+// evaluates pmat, of arbitrary degree, at the geometric progression pt^(2i), 0 <= i < order
+static void evaluate_matrix_geometric(Vec<Mat<zz_p>> & evals, const Mat<zz_pX> & pmat, const zz_p & pt, long order)
+{
+    zz_pX_Multipoint_Geometric ev(pt, order);
+    if (deg(pmat) < order)
+    {
+        ev.evaluate_matrix(evals, pmat);
+        return;
+    }
+    Vec<zz_p> pts;
+    ev.get_points(pts);
+    zz_pX_Multipoint_General ev_gen(pts);
+    ev_gen.evaluate_matrix(evals, pmat);
+}
+
 bool is_interpolant_basis_geometric(
                                     const Mat<zz_pX> & intbas,
                                     const Vec<Mat<zz_p>> & evals,
@@ -86,9 +101,8 @@ bool is_interpolant_basis_geometric(
         return false;
 
     // test that the matrix consists of interpolants
-    zz_pX_Multipoint_Geometric ev(pt, order);
     Vec<Mat<zz_p>> intbas_evals;
-    ev.evaluate_matrix(intbas_evals, intbas);
+    evaluate_matrix_geometric(intbas_evals, intbas, pt, order);
     Mat<zz_p> res;
     for (long pt=0; pt<order; ++pt)
     {
@@ -148,9 +162,8 @@ bool is_interpolant_basis_geometric(
                                     const bool randomized
                                    )
 {
-    zz_pX_Multipoint_Geometric ev(pt, order);
     Vec<Mat<zz_p>> evals;
-    ev.evaluate_matrix(evals, pmat);
+    evaluate_matrix_geometric(evals, pmat, pt, order);
     return is_interpolant_basis_geometric(intbas,evals,pt,order,shift,form,randomized);
 }
 
-- 
2.43.0


From ef9709dd5286df8a2df97c664e420da8f4967a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:56 +0000
Subject: [PATCH 55/76] fix: is_interpolant_basis accepted non-square matrices

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 6ddc1ce..f9e9c6a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -26,6 +26,12 @@ bool is_interpolant_basis(
     if (randomized)
         throw std::logic_error("==is_interpolant_basis== Fast randomized interpolant basis verification not implemented yet");
 
+    // test that intbas has the right dimensions
+    if (intbas.NumRows() != intbas.NumCols())
+        return false;
+    if (evals.length() > 0 && intbas.NumCols() != evals[0].NumRows())
+        return false;
+
     // test that intbas is shift-reduced with form at least 'form'
     if (not is_row_polmatform(form,intbas,shift))
         return false;
@@ -96,6 +102,12 @@ bool is_interpolant_basis_geometric(
     if (randomized)
         throw std::logic_error("==is_interpolant_basis== Fast randomized interpolant basis verification not implemented yet");
 
+    // test that intbas has the right dimensions
+    if (intbas.NumRows() != intbas.NumCols())
+        return false;
+    if (evals.length() > 0 && intbas.NumCols() != evals[0].NumRows())
+        return false;
+
     // test that intbas is shift-reduced with form at least 'form'
     if (not is_row_polmatform(form,intbas,shift))
         return false;
-- 
2.43.0


From fab9d65b2f5400fdf69927e132897684b08396da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:51 +0000
Subject: [PATCH 56/76] fix: Magma / Sage output of vectors of polynomials
 ignored the name of the variable

---
 ntl-extras/magma_output/src/magma_output.cpp | 2 +-
 ntl-extras/sage_output/src/sage_output.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index e36bbba..6acfed8 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -187,7 +187,7 @@ void magma_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        magma_output(v[i]);
+        magma_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index d03eb98..ad51fb3 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -189,7 +189,7 @@ void sage_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        sage_output(v[i]);
+        sage_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
-- 
2.43.0


From 439a42ffeb8910e0d8b91fea1083f09eceb275e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:51 +0000
Subject: [PATCH 57/76] fix: magma_init_ZZX / sage_init_ZZX redefined U instead
 of defining UZ

---
 ntl-extras/magma_output/src/magma_output.cpp | 4 ++--
 ntl-extras/sage_output/src/sage_output.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index 6acfed8..f4a3981 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -25,11 +25,11 @@ void magma_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                   */
 /*------------------------------------------------------------*/
 void magma_init_ZZX()
 {
-    cout << "U<XX> := PolynomialRing(Integers());\n";
+    cout << "UZ<XX> := PolynomialRing(Integers());\n";
 }
 
 
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index ad51fb3..51429b1 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -25,11 +25,11 @@ void sage_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                   */
 /*------------------------------------------------------------*/
 void sage_init_ZZX()
 {
-    cout << "U.<XX> = PolynomialRing(Integers())\n";
+    cout << "UZ.<XX> = PolynomialRing(Integers())\n";
 }
 
 
-- 
2.43.0


From ba783681fa330560ed8ecef251625fe45203e80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:26 +0000
Subject: [PATCH 58/76] fix: gen_pows returned zero upper parts when the
 modular product does not use FFT

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 525894a..49d79ca 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -23,16 +23,22 @@ void MulMod_local(zz_pX& x, zz_pX& upper, const zz_pX& a, const zz_pXMultiplier&
     if (da < 0)
     {
         clear(x);
+        clear(upper);
         return;
     }
 
     if (!B.UseFFT || !F.UseFFT || da <= NTL_zz_pX_MOD_CROSSOVER)
     {
-        zz_pX P1;
+        zz_pX P1, H;
+        // quotients of a*X^i by F, i < n-1 (see the FFT case below)
+        InvTrunc(H, reverse(F.f, n), n-1);
+        reverse(H, H, n-2);
+        mul(H, H, a);
+        RightShift(H, H, n-1);
+
         mul(P1, a, B.b);
         rem(x, P1, F);
-        // todo: do this case
-        upper = 0;
+        swap(upper, H);
         return;
     }
 
-- 
2.43.0


From 04dd1c5ff262dfd3cd0a876c45e9606cafb1c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:26 +0000
Subject: [PATCH 59/76] fix: pmbasis_generic_2n_n failed on matrices of degree
 at least the order

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c041c3e..63e96e4 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1357,6 +1357,7 @@ void pmbasis_generic_2n_n(
     // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
     Mat<zz_pX> shift_pmat, residual;
     RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, shift_pmat, order - order1/2);
     middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, with 'residual'
@@ -1405,6 +1406,7 @@ void pmbasis_generic_2n_n_top_rows(
     // (right shift allowed since deg(appbas) = ceil(order1 / 2) )
     Mat<zz_pX> shift_pmat, residual;
     RightShift(shift_pmat, pmat, order1/2);
+    trunc(shift_pmat, shift_pmat, order - order1/2);
     middle_product(residual, appbas, shift_pmat, order1 - order1/2, order2-1);
 
     // second recursive call, with 'residual'
-- 
2.43.0


From 9fa8ad6030db98591a2f76cf91ce995be501f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:07 +0000
Subject: [PATCH 60/76] fix: matrix_pade_generic_iterative failed at order 3

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 63e96e4..d82a4a3 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1590,6 +1590,14 @@ void matrix_pade_generic_iterative(
         t_res += GetWallTime()-tt;
 #endif // MATRIX_PADE_GEN_PROFILE
     }
+    else if (odd_order)
+    {
+        // order == 3: prepare for the additional iteration below, which
+        // updates the residual using K0, R_bot[1], R_bot[2]
+        K0 = D2[1];
+        R_bot[1].SetDims(n, n);
+        R_bot[2].SetDims(n, n);
+    }
 
     // Iterations k==1...d-1
     for (long k=1; k<d; ++k)
-- 
2.43.0


From 55c51674b72ca5609d46eca434c75c5251d1bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:07 +0000
Subject: [PATCH 61/76] fix: mul_special failed on zero matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index 49d79ca..d12e203 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -127,6 +127,15 @@ void mul_special(Mat<zz_pX>& c, Mat<zz_pX>& cs, const Mat<zz_pX>& a, const Mat<z
     long p = b.NumCols();
     long ell;
 
+    if (dA < 0 || dB < 0)
+    {
+        c.kill();
+        c.SetDims(m, p);
+        cs.kill();
+        cs.SetDims(m, p);
+        return;
+    }
+
     Mat<zz_p> tmp_mat(INIT_SIZE, sA, m * n);
     Mat<zz_p> valA, valB, valC, valCs;
     Mat<zz_p> vA, vB, iv;
-- 
2.43.0


From ff70bdecc87fe770de744e8cd8f55c7d8e0c7522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:27 +0000
Subject: [PATCH 62/76] fix: generic approximant bases had unnormalized entries

---
 .../src/mat_lzz_pX_pmbasis_generic.cpp         | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index d82a4a3..ed69258 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -729,6 +729,11 @@ void mbasis_generic_2n_n_rescomp(
             SetCoeff(appbas[i][i], d);
     }
 
+    // strip possible leading zeroes
+    for (long i = 0; i < 2*n; ++i)
+        for (long j = 0; j < 2*n; ++j)
+            appbas[i][j].normalize();
+
 #ifdef MBASIS_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
@@ -1309,6 +1314,11 @@ void mbasis_generic_2n_n_resupdate(
         for (long i = 0; i < 2*n; ++i)
             SetCoeff(appbas[i][i], d);
     }
+
+    // strip possible leading zeroes
+    for (long i = 0; i < 2*n; ++i)
+        for (long j = 0; j < 2*n; ++j)
+            appbas[i][j].normalize();
 #ifdef MBASIS_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
@@ -1901,6 +1911,14 @@ void matrix_pade_generic_iterative(
             }
     }
 
+    // strip possible leading zeroes
+    for (long i = 0; i < n; ++i)
+        for (long j = 0; j < n; ++j)
+        {
+            den1[i][j].normalize();
+            den2[i][j].normalize();
+        }
+
 #ifdef MATRIX_PADE_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
-- 
2.43.0


From 80b23465108808d0733c9929142a658bdd7c59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:36 +0000
Subject: [PATCH 63/76] fix: minpoly_nondegenerate returned polynomials that do
 not cancel the sequence

The coefficients of the solution were not reversed, its last one was
dropped, the base case used a shift of the wrong length, and odd orders
were rounded down.
---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 69 ++++++++++++------------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 552e971..5c6a40b 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -959,36 +959,34 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
     if (bitmap[t]) gens[t] = fs[t];
 }
 
-void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
+// solves modulo x^d the n x n system with matrix (S[n-1+i-j])_{i,j} and
+// right-hand side given by the coefficients of rhs of degree 0,...,n-1 in y;
+// SXY = sum_i S[i] y^i for 0 <= i <= 2n-2, S0X is SXY modulo x
+// requires that the matrix is invertible modulo x
+void minpoly_DAC(const long d, const long n, const zz_pXY &SXY, const zz_pX &S0X,
     const zz_pXY &rhs, zz_pXY &P){
   if (d == 1){
+    // rows of appbas: (q, r, c) with q S0X - r - c y^(n-1) rhs = 0 mod y^(2n-1)
+    // with this shift, the last row has c constant, deg(q) < n, deg(r) < n-1
     VecLong shift;
     shift.emplace_back(0);
-    shift.emplace_back(0);
+    shift.emplace_back(1);
+    shift.emplace_back(n-1);
     Mat<zz_pX> appbas;
     Mat<zz_pX> pmat;
-    long order = deg(S0X)+1;
+    long order = 2*n-1;
     pmat.SetDims(3,1);
     pmat[0][0] = S0X;
     pmat[1][0] = zz_pX{-1};
 
     // construct rhs mod x
     zz_pX rhs_x;
-    for (long i = 0; i <= rhs.degY(); i++){
-      if (rhs.rep[0] != zz_p(0))
-	SetCoeff(rhs_x, i, rhs.rep[i][0]);
-    }
-    LeftShift(rhs_x,rhs_x, rhs.degY());
+    for (long i = 0; i <= rhs.degY(); i++)
+      SetCoeff(rhs_x, i, coeff(rhs.rep[i], 0));
+    LeftShift(rhs_x, rhs_x, n-1);
     pmat[2][0] = -rhs_x;
     pmbasis(appbas, pmat, order, shift);
-    long r_cor = 0;
-    for (long i = 0; i < 3; i++){
-      if (deg(appbas[i][2]) == 0){
-	r_cor = i;
-	break;
-      }
-    }
-    zz_pX px = appbas[r_cor][0]*InvTrunc(appbas[r_cor][2],1);
+    zz_pX px = appbas[2][0]*InvTrunc(appbas[2][2],1);
 
     P = zz_pX{0};
     for (long i = 0; i <= deg(px); i++)
@@ -1001,44 +999,47 @@ void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X,
     }
     return;
   }
+  const long d0 = d/2;
+  const long d1 = d-d0;
   zz_pXY P0;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, trunc_x(rhs,d/2),P0);
+  minpoly_DAC(d0, n, trunc_x(SXY,d0), S0X, trunc_x(rhs,d0), P0);
 
   // compute the residue
   zz_pXY r;
   mul(r, SXY, P0);
   r = trunc_x(r,d);
-  r = shift_y(r,-rhs.degY());
-  r = trunc_y(r,rhs.degY()+1);
+  r = shift_y(r,-(n-1));
+  r = trunc_y(r,n);
   r = rhs - r;
 
-  r = shift_x(r,-d/2);
+  r = shift_x(r,-d0);
 
   zz_pXY P1;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, r, P1);
-  shift_x(P1,P1,d/2);
+  minpoly_DAC(d1, n, trunc_x(SXY,d1), S0X, trunc_x(r,d1), P1);
+  shift_x(P1,P1,d0);
   P = P0 + P1;
 }
 
 void minpoly_nondegenerate(const long d, const Vec<zz_pX> &S, zz_pXY &P){
+  const long n = S.length()/2;
   // make bivariate polynomial of S for multiplication
   zz_pXY SXY;
-  for (long i = 0; i < S.length()-1; i++)
-    SXY  = SXY + shift_y(zz_pXY{S[i]}, i);
+  for (long i = 0; i < 2*n-1; i++)
+    SXY  = SXY + shift_y(zz_pXY{trunc(S[i],d)}, i);
   zz_pX S0X;
-  for (long i = 0; i < S.length()-1; i++)
-    SetCoeff(S0X, i, S[i][0]);
+  for (long i = 0; i < 2*n-1; i++)
+    SetCoeff(S0X, i, coeff(S[i],0));
   // construct rhs
   zz_pXY rhs;
-  for (long i = S.length()/2; i < S.length(); i++)
-    rhs = rhs + shift_y(zz_pXY{S[i]},(i-S.length()/2));
+  for (long i = n; i < 2*n; i++)
+    rhs = rhs + shift_y(zz_pXY{trunc(S[i],d)},i-n);
   zz_pXY P_res;
-  minpoly_DAC(d,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
-  P = zz_pXY{zz_pX{0}};
-  for (long i = 0; i < P_res.degY(); i++){
-    P.rep.append(P_res.rep[i]);
-  }
-  P = P + shift_y(zz_pXY{zz_pX{1}}, S.length()/2);
+  minpoly_DAC(d,n,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
+  // P_res has the coefficients of P in reverse order
+  zz_pXY res = shift_y(zz_pXY{zz_pX{1}}, n);
+  for (long i = 0; i <= P_res.degY(); i++)
+    res = res + shift_y(zz_pXY{P_res.rep[i]}, n-1-i);
+  P = res;
 }
 
 void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
-- 
2.43.0


From bab1b46218c6045d059ad6a6197b5c63000136e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:56 +0000
Subject: [PATCH 64/76] fix: zz_pX_shift_large_characteristic wrote out of
 bounds on polynomials of too large degree

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 0f91e88..4181d6b 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -399,6 +399,9 @@ void zz_pX_shift_large_characteristic::shift(zz_pX& g, const zz_pX& f) const
         return;
     }
 
+    if (deg(f) > d)
+        LogicError("Degree too large for shift");
+
     zz_pX u;
     u.SetLength(d+1);
     for (long i = 0; i <= deg(f); ++i)
-- 
2.43.0


From 9c1e9d151d76c41acb3486647e9f0ab5b93ef243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:10 +0000
Subject: [PATCH 65/76] fix: hankel_like_plus_lzz_p right multiplication read
 out of bounds on vectors of wrong size

---
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index d39b339..ca75b3a 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -92,6 +92,9 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
         return;
     }
 
+    if (input.length() != n)
+        LogicError("Wrong size for hankel_like_plus_lzz_p right multiplication.");
+
     output.SetLength(m);
     for (long i = 0; i < m; i++)
         output[i] = 0;
-- 
2.43.0


From 62a8efe612acb27ca9444669423e9fbd26d11fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:52 +0000
Subject: [PATCH 66/76] fix: mirror of a vector indexed one entry past its end

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index 62d91d9..ca0333a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -232,7 +232,7 @@ void mirror(Vec<zz_pX>& mvec, const Vec<zz_pX>& pvec)
     if (&mvec != &pvec)
         mvec = pvec;
 
-    std::reverse(&mvec[0], &mvec[n]);
+    std::reverse(mvec.begin(), mvec.end());
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From a4590858a9044f8044d83b770d402828369351a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:52 +0000
Subject: [PATCH 67/76] fix: zz_pX_Multipoint_FFT with one point shifted by a
 negative amount

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
index 7302f68..a85ea1c 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
@@ -33,8 +33,9 @@ static void BitReverse_init(Vec<long> & indices, long k)
     indices.SetLength(n);
     long *rev = indices.elts();
     long i, j;
-    for (i = 0, j = 0; i < n; i++, j = RevInc(j, k))
-        rev[i] = j;
+    rev[0] = 0;
+    for (i = 1, j = 0; i < n; i++)
+        rev[i] = j = RevInc(j, k);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From c168387d5ae96073daf496b12e04927f915223fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:52 +0000
Subject: [PATCH 68/76] fix: zz_pX_Multipoint_Geometric::interpolate read
 aliased values after clearing them

---
 .../lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp    | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index c763a7b..041b1b1 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -393,18 +393,16 @@ void zz_pX_Multipoint_Geometric::evaluate(Vec<zz_p>& val, const zz_pX& f, long n
 /*------------------------------------------------------------*/
 void zz_pX_Multipoint_Geometric::interpolate(zz_pX& f, const Vec<zz_p>& val) 
 {
-    f = 0;
-
     if (n == 0)
     {
+        f = 0;
         return;
     }
 
     if (n == 1)
     {
-        f.rep.SetLength(1);
-        f.rep[0] = val[0];
-        f.normalize();
+        const zz_p val0 = val[0];
+        f = val0;
         return;
     }
 
@@ -415,6 +413,9 @@ void zz_pX_Multipoint_Geometric::interpolate(zz_pX& f, const Vec<zz_p>& val)
         SetCoeff(k, i, val[i] * w[i]);
     }
 
+    // only now, since val may alias f.rep
+    f = 0;
+
     if (FFT_feasible && do_FFT_interpolate)
     {
         fftRep k_fft, h_fft;
-- 
2.43.0


From 2277d88c9851afd8845897bd063485aa7bde39c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:09 +0000
Subject: [PATCH 69/76] fix: zz_pX_Multipoint_FFT with one point read past the
 end of its table

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
index a85ea1c..7d3e4de 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_FFT.cpp
@@ -71,7 +71,7 @@ zz_pX_Multipoint_FFT::zz_pX_Multipoint_FFT(long n)
     zz_p pow1 = to_zz_p(1);
     zz_p pow2 = to_zz_p(1);
 
-    zz_p z1 = to_zz_p(wk.tbl[0][1]);
+    zz_p z1 = to_zz_p(wk.tbl[0][n > 1 ? 1 : 0]);
     zz_p z2 = to_zz_p(wk.tbl[0][n >> 1]);
     do_bit_reverse = 1;
 
-- 
2.43.0


From 9542c6a72086c66cecaf7ae988bee4165398a1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:54 +0000
Subject: [PATCH 70/76] fix: NewtonInvTruncMul read coefficients past the
 length of intermediate polynomials

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 4181d6b..76f1d5b 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -201,17 +201,17 @@ static void NewtonInvTruncMul(zz_pX& x, const zz_pX& b, const zz_pX& a, long m)
 
         x.rep.SetLength(l+1);
         for (long i = 0; i < k; ++i)
-            x[i]=P2l[i];
+            x[i] = coeff(P2l, i);
 
         if (deg(b) >= k)
             for (long i = k; i <= l; ++i) 
-                add(x[i], P2l[i], P2h[i-k]);
+                add(x[i], coeff(P2l, i), coeff(P2h, i-k));
         else
             for (long i = k; i <= l; ++i) 
-                x[i] = P2l[i];
+                x[i] = coeff(P2l, i);
 
         for (long i = k; i <= l; ++i) 
-            sub(x[i], x[i], P1[i-k]);
+            sub(x[i], x[i], coeff(P1, i-k));
 
         x.normalize();
     }
-- 
2.43.0


From 18c8b97e3a47b5119dd1fa6957b1c2374d843f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:36 +0000
Subject: [PATCH 71/76] fix: matrix_recon_interpolation used stale rows of the
 sequence matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
index d12e203..332ba27 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_sequence.cpp
@@ -535,7 +535,10 @@ void matrix_recon_interpolation(Mat<zz_pX> & basis,
     {
         seq[j].SetDims(2*m, m);
         for (long i = 0; i < m; ++i)
+        {
+            clear(seq[j][m+i]);
             set(seq[j][m+i][i]);
+        }
     }
 
     // call pmbasis
@@ -572,7 +575,10 @@ void matrix_recon_interpolation_geometric(Mat<zz_pX> & basis,
     {
         seq[j].SetDims(2*m, m);
         for (long i = 0; i < m; i++)
+        {
+            clear(seq[j][m+i]);
             set(seq[j][m+i][i]);
+        }
     }
 
     // call pmbasis
-- 
2.43.0


From 277e3d6e45880cc2a236913da799a344e4c70faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:16 +0000
Subject: [PATCH 72/76] fix: verify_determinant up to a constant accepted zero
 for nonsingular matrices and anything for singular ones

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 1c31a27..ea58a40 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -32,7 +32,11 @@ bool verify_determinant(const zz_pX & det, const Mat<zz_pX> & pmat, bool up_to_c
         zz_p det_pt2 = determinant(eval(pmat, pt));
         // evaluate the provided determinant
         zz_p ev_det2 = eval(det,pt);
-        return (det_pt * ev_det2 == det_pt2 * ev_det);
+        // (the constant is nonzero: zero is not the determinant of a nonsingular
+        // matrix, and a singular matrix has no other determinant than zero)
+        return IsZero(det_pt) == IsZero(ev_det)
+            && IsZero(det_pt2) == IsZero(ev_det2)
+            && det_pt * ev_det2 == det_pt2 * ev_det;
     }
 }
 
-- 
2.43.0


From 36d8cbb24c8d072488b04f6ccc04781ffcf66a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:19 +0000
Subject: [PATCH 73/76] fix: invert_leading_principal_minor_grp could report a
 too small rank over small fields (randomized zero test)

---
 .../src/cauchy_like_geometric_lzz_p.cpp           | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
index 02de1cc..5cdfba6 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
@@ -900,14 +900,13 @@ static long invert_rec(Mat<zz_p>& Yp_out, Mat<zz_p>& Zp_out,
     // case 2: we found the rank of the top-left, which was grp. check all the rest.
     if (r < N1)
     {
-        // check if G2.H2^t = 0 by computing random_vec.G2.H2^t*random_vec
-        Vec<zz_p> check;
-        random(check, n-r);
-        check = check*H2;
-        check = G2*check;
-        for (long i = 0; i < m-r; i++)
-            if (check[i] != 0)
-                return -1;
+        // check if G2.H2^t = 0: G2 must vanish on a basis of the row space of H2
+        // (no random choice here: over a small field, it would miss nonzero matrices)
+        long rk = gauss(H2);
+        H2.SetDims(rk, alpha);
+        mul(tmp, G2, transpose(H2));
+        if (! IsZero(tmp))
+            return -1;
         return r;
 
     }
-- 
2.43.0


From a22e2b66098f2b83910e64aab2ffdd62797a64a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 74/76] fix: kernel_basis_zls_* could miss kernel rows at
 constant or zero rows of pmat with large shifts

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index 3ce3c36..3502888 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -1,5 +1,6 @@
 #include "mat_lzz_pX_arith.h"
 #include "mat_lzz_pX_forms.h"
+#include <algorithm> // for std::all_of
 #include "numeric" // for std::iota
 
 #include "mat_lzz_pX_utils.h"
@@ -481,7 +482,11 @@ void kernel_basis_zls_via_approximation(
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(appbas[rows_app_ker[i]][rows_app_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    // (this says nothing about kernel rows with pivot degree 0, which may exist
+    // at rows of pmat that are constant or zero: no early exit in that case)
+    const bool early_exit = (sum_kerdeg == sum_matdeg)
+        && std::all_of(rows_app_notker.begin(), rows_app_notker.end(),
+                       [&rdeg](long i) -> bool { return rdeg[i] > 0; });
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
@@ -802,7 +807,11 @@ void kernel_basis_zls_via_interpolation(
     for (long i = 0; i < m1; ++i)
         sum_kerdeg += deg(intbas[rows_int_ker[i]][rows_int_ker[i]]);
 
-    const bool early_exit = (sum_kerdeg == sum_matdeg);
+    // (this says nothing about kernel rows with pivot degree 0, which may exist
+    // at rows of pmat that are constant or zero: no early exit in that case)
+    const bool early_exit = (sum_kerdeg == sum_matdeg)
+        && std::all_of(rows_int_notker.begin(), rows_int_notker.end(),
+                       [&rdeg](long i) -> bool { return rdeg[i] > 0; });
 
     // if the whole kernel was captured according to the above test, or if
     // there was just one column, or if the kernel is full (matrix was zero),
-- 
2.43.0


From fade34a9fe090ea43e9ce65d4781306c8743cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 75/76] fix: bivariate resultants raised errors instead of
 reporting failure when the evaluation points cannot be or were not distinct

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 53 ++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index c17d183..f82fb41 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -1,5 +1,6 @@
 #include <NTL/lzz_pX.h>
 
+#include "lzz_p_extra.h"
 #include "lzz_pX_CRT.h"
 #include "mat_lzz_pX_forms.h"
 #include "mat_lzz_pX_kernel.h"
@@ -441,6 +442,12 @@ void SetCoeff(zz_pXY& x, long i, const zz_pX& c)
 /*------------------------------------------------------------*/
 long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 {
+    if (f.is_zero() || g.is_zero())
+    {
+        clear(res);
+        return 1;
+    }
+
     long dyf = f.degY();
     long dyg = g.degY();
     long n = max(dyf, dyg);
@@ -452,6 +459,11 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     long xtra = 2;
     long dr = 2*n*d + xtra;
 
+    // not enough points in the field
+    const long ord = 2 * max(dr, d+1);
+    if (zz_p::modulus() - 1 < ord)
+        return 0;
+
     Vec<zz_p> val_res, val_lcf, val_lcg;
     Vec<zz_pX> val_f, val_g;
 
@@ -467,8 +479,14 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        // the dr points b0*a0^(2i) must be pairwise distinct
+        element_of_order(a0, ord);
         b0 = random_zz_p();
+        if (a0 == 0 || b0 == 0)
+        {
+            OK = 0;
+            continue;
+        }
         evG = zz_pX_Multipoint_Geometric(a0, b0, max(dxf, dxg)+1);
         evG.evaluate(val_lcf, f.rep[dyf], dr);
         evG.evaluate(val_lcg, g.rep[dyg], dr);
@@ -481,7 +499,7 @@ long resultant(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     }
     while (OK == 0 && nb < 5);
   
-    if (nb == 5)
+    if (OK == 0)
         return 0;
 
     for (long i = 0; i < dr; i++)
@@ -530,8 +548,13 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
 
     long xtra = 2;
     long m = (long) cbrt(n);
+    if (m < 1 || m > min(nf, ng))
+        return 0;
     long delta = 2 * 2 * d * ((n + m - 1)/m) + xtra;
 
+    // not enough points in the field
+    if (zz_p::modulus() - 1 < 2*delta)
+        return 0;
 
     Vec<zz_p> val_res, val_lcf, val_lcg;
     Vec<zz_pX> val_f, val_g;
@@ -547,7 +570,13 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        // the delta points a0^(2i) must be pairwise distinct
+        element_of_order(a0, 2*delta);
+        if (a0 == 0)
+        {
+            OK = 0;
+            continue;
+        }
         // TODO: add randomness by using b0 as well
         evG = zz_pX_Multipoint_Geometric(a0, max(df, dg)+1);
         evG.evaluate(val_lcf, f.rep[nf], delta);
@@ -561,7 +590,7 @@ long resultant_villard(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     }
     while (OK == 0 && nb < 5);
   
-    if (nb == 5)
+    if (OK == 0)
         return 0;
 
     for (long i = 0; i < delta; i++)
@@ -626,8 +655,14 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     // block projection parameters:
     // block-size m and expansion length 1 + 2*ceil(d/m)
     long m = (long) cbrt((nf+ng)/2);  // FIXME allow handpicked exponent
+    if (m < 1)
+        return 0;
     long d = 1 + nf+ng + 2 * (res_deg+m-1) / m;
 
+    // not enough points in the field
+    if (zz_p::modulus() - 1 < 2*d)
+        return 0;
+
     /* std::cout << "res deg: " << res_deg << std::endl; */
     /* std::cout << "Sylvester dim: " << nf+ng << std::endl; */
     /* std::cout << "m: " << m << std::endl; */
@@ -654,7 +689,13 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     {
         nb++;
         OK = 1;
-        a0 = random_zz_p();
+        // the d points a0^(2i) must be pairwise distinct
+        element_of_order(a0, 2*d);
+        if (a0 == 0)
+        {
+            OK = 0;
+            continue;
+        }
         // TODO: add randomness by using b0 as well
         evG = zz_pX_Multipoint_Geometric(a0, max(f.degX(), g.degX())+1);
         evG.evaluate(val_lcf, f.rep[nf], d);
@@ -668,7 +709,7 @@ long resultant_villard_tdeg(zz_pX& res, const zz_pXY& f, const zz_pXY& g)
     }
     while (OK == 0 && nb < 5);
   
-    if (nb == 5)
+    if (OK == 0)
         return 0;
 
     for (long i = 0; i < d; i++)
-- 
2.43.0


From 11394266619d112cbfac227b8b632f4bab2bdd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:26 +0000
Subject: [PATCH 76/76] fix: cauchy_geometric_lzz_p wrote out of bounds when
 constructed without rows

---
 ntl-extras/structured_lzz_p/src/cauchy_geometric_lzz_p.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_geometric_lzz_p.cpp
index 479879a..205f929 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_geometric_lzz_p.cpp
@@ -72,7 +72,8 @@ cauchy_geometric_lzz_p::cauchy_geometric_lzz_p(const zz_p& a1, const zz_p& b1, c
 
         powers_irho.SetLength(m);
         zz_p irho = 1/rho;
-        powers_irho[0] = 1;
+        if (m > 0)
+            powers_irho[0] = 1;
         for (long i = 1; i < m; i++)
         {
             powers_irho[i] = irho*powers_irho[i-1];
-- 
2.43.0

