From d13b38031ba9568c0ff071da533bcdf37db5dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:16 +0000
Subject: [PATCH 01/40] fix: kbnsum: use the stride when scanning past an
 infinity

The loop that looks for nan or an infinity of the opposite sign after the
first infinity indexed p_x as a contiguous array, so for a non-contiguous
input it examined the wrong values (and could read out of bounds).
---
 src/kbnsum/kbnsum_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kbnsum/kbnsum_gufunc.h b/src/kbnsum/kbnsum_gufunc.h
index 83b95a2..77bd721 100644
--- a/src/kbnsum/kbnsum_gufunc.h
+++ b/src/kbnsum/kbnsum_gufunc.h
@@ -121,7 +121,7 @@ static void kbnsum_core_calc(
         }
         if (std::isinf(xk)) {
             for (npy_intp j = k + 1; j < n; ++j) {
-                T y = p_x[j];
+                T y = get(p_x, x_stride, j);
                 if (std::isnan(xk + y)) {
                     p_out[0] = std::numeric_limits<T>::quiet_NaN();
                     return;
-- 
2.43.0


From 7886bda85ede6556e7fbd57bb1caf3fefbb194d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:16 +0000
Subject: [PATCH 02/40] fix: bincount: ignore uint64 values that do not fit in
 npy_intp

A uint64 value greater than or equal to 2**63 became a negative index that
passed the range check, and the count was written before the start of out.
---
 src/bincount/bincount_gufunc.h | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/bincount/bincount_gufunc.h b/src/bincount/bincount_gufunc.h
index 401b36d..c9d082e 100644
--- a/src/bincount/bincount_gufunc.h
+++ b/src/bincount/bincount_gufunc.h
@@ -14,6 +14,21 @@
 #include "../src/util/strided.hpp"
 
 
+//
+// Return true if 0 <= k < m.
+//
+// For values of the largest unsigned type, the conversion to npy_intp might
+// give a negative value, so the lower bound is also checked after converting.
+//
+template<typename T>
+static inline bool
+in_range(T k, npy_intp m)
+{
+    npy_intp i = static_cast<npy_intp>(k);
+    return k >= 0 && i >= 0 && i < m;
+}
+
+
 //
 // `bincount_core_calc` is the C++ core function
 // for the gufunc `bincount` with signature '(n)->(m)'
@@ -36,7 +51,7 @@ bincount_core_calc(
         if (out_stride == sizeof(U)) {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (in_range(k, m)) {
                     p_out[k] += 1;
                 }
             }
@@ -44,7 +59,7 @@ bincount_core_calc(
         else {
             for (npy_intp i = 0; i < n; ++i) {
                 T k = p_x[i];
-                if (k >= 0 && static_cast<npy_intp>(k) < m) {
+                if (in_range(k, m)) {
                     set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
                 }
             }
@@ -53,7 +68,7 @@ bincount_core_calc(
     else {
         for (npy_intp i = 0; i < n; ++i) {
             T k = get(p_x, x_stride, i);
-            if (k >= 0 && static_cast<npy_intp>(k) < m) {
+            if (in_range(k, m)) {
                 set(p_out, out_stride, k, get(p_out, out_stride, k) + 1);
             }
         }
@@ -82,7 +97,7 @@ bincountw_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (in_range(k, m)) {
             W w = get(p_w, w_stride, i);
             set<W>(p_out, static_cast<ptrdiff_t>(out_stride),
                    static_cast<ptrdiff_t>(k),
@@ -130,7 +145,7 @@ bincountw_complex_core_calc(
 
     for (npy_intp i = 0; i < n; ++i) {
         T k = get(p_x, x_stride, i);
-        if (k >= 0 && static_cast<npy_intp>(k) < m) {
+        if (in_range(k, m)) {
             W w = get(p_w, w_stride, i);
             W *p = (W *)((char *)p_out + k*out_stride);
             npy_complex_add_inplace(p, w);
-- 
2.43.0


From d15469e835663422839046822963a4c74233f13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:16 +0000
Subject: [PATCH 03/40] fix: bincount: compute the default m without integer
 wraparound

np.max(x) + 1 wraps when the maximum of x is the maximum of its dtype, so
e.g. bincount(np.array([255], dtype=np.uint8)) returned an empty array.
---
 ufunclab/_wrapped.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 6ea4f82..3d34371 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -161,7 +161,7 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     if x.dtype.char not in np.typecodes['AllInteger']:
         raise ValueError('x must be an integer array.')
     if m is None:
-        m = max(np.max(x) + 1, 0)
+        m = max(int(np.max(x)) + 1, 0)
     else:
         try:
             m = operator.index(m)
-- 
2.43.0


From 1ff8588e279f73d4d3483bf86eadb1e667286a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:16 +0000
Subject: [PATCH 04/40] fix: one_hot: handle unsigned integer input

The wrapper accepts any integer type, but the call of the gufunc failed
with a casting error for the unsigned types.
---
 ufunclab/_wrapped.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index 3d34371..b083ec3 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -372,7 +372,10 @@ def one_hot(k, n, *, out=None, axis=-1):
                              f'got {out.shape}.')
     else:
         out = np.empty(out_shape, dtype=k.dtype)
-    return _one_hot(k, out=out, axis=axis)
+    # The gufunc has just one loop, with input and output type np.intp.
+    # Unsafe casting allows all the integer types.  A uint64 value that
+    # does not fit in np.intp becomes negative, so it is still out of range.
+    return _one_hot(k, out=out, axis=axis, dtype=np.intp, casting='unsafe')
 
 
 one_hot.gufunc = _one_hot
-- 
2.43.0


From c1da3a2f92bb9c4788c881ecb6946d0bca34cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:36 +0000
Subject: [PATCH 05/40] fix: unwrap: do not truncate the number of periods to
 int

A jump of 2**31 or more periods overflowed the int, and the result was
not within half a period of the previous value.
---
 src/unwrap/unwrap_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index 37c59b8..d5671af 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -19,7 +19,7 @@ template<typename T>
 T unwrap1(T x0, T x1, T period)
 {
     T delta = x1 - x0;
-    int q = static_cast<int>(delta/period + std::copysign(0.5, delta));
+    T q = std::trunc(delta/period + std::copysign(static_cast<T>(0.5), delta));
     return x1 - q * period;
 }
 
-- 
2.43.0


From 5d91c3f9738d1f7f603822f6512ae636984575c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:36 +0000
Subject: [PATCH 06/40] fix: unwrap: propagate nan when the first value is not
 finite

A nan or inf in any other position makes the output nan from there on, but
after a nonfinite first value the remaining output was finite garbage.
---
 src/unwrap/unwrap_gufunc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/unwrap/unwrap_gufunc.h b/src/unwrap/unwrap_gufunc.h
index d5671af..3af85b3 100644
--- a/src/unwrap/unwrap_gufunc.h
+++ b/src/unwrap/unwrap_gufunc.h
@@ -43,7 +43,7 @@ unwrap_core(
     p_out[0] = x0;
     for (npy_intp k = 1; k < n; ++k) {
         T x1 = get(p_x, x_stride, k);
-        if (!std::isfinite(x1)) {
+        if (!std::isfinite(x0) || !std::isfinite(x1)) {
             // inf or nan; output from here onwards is nan.
             for (npy_intp k1 = k; k1 < n; ++k1) {
                 set(p_out, out_stride, k1, static_cast<T>(NPY_NAN));
-- 
2.43.0


From f3ab2583fb2c685c4a13978d5ae009d1990c6718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:36 +0000
Subject: [PATCH 07/40] fix: percentileofscore: return nan for an unknown kind

The output was left uninitialized (and a kind that differs from a valid one
by a multiple of 2**32 was accepted).
---
 src/percentileofscore/percentileofscore_gufunc.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/percentileofscore/percentileofscore_gufunc.h b/src/percentileofscore/percentileofscore_gufunc.h
index 1fab4fa..47f240b 100644
--- a/src/percentileofscore/percentileofscore_gufunc.h
+++ b/src/percentileofscore/percentileofscore_gufunc.h
@@ -64,7 +64,7 @@ percentileofscore_core_calc(
 
     count(n, p_x, x_stride, *p_score, &nless, &nequal, &ngreater);
 
-    switch (static_cast<int>(*p_kind)) {
+    switch (*p_kind) {
         case RANK:
             sum = 2*nless + nequal;
             if (nequal > 0) {
@@ -81,6 +81,10 @@ percentileofscore_core_calc(
         case MEAN:
             *p_out = (2*nless + nequal)*50.0/n;
             return;
+        default:
+            // Unknown kind.
+            *p_out = NPY_NAN;
+            return;
     }
 }
 
-- 
2.43.0


From a5c872e2e5983e271bf6ec67838b7c42d4913a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 08/40] fix: convert_to_base: raise ValueError for base 0

Integer division by zero (and the overflow of the minimum integer divided
by -1) crashed the interpreter with SIGFPE.
---
 src/convert_to_base/convert_to_base_gufunc.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/convert_to_base/convert_to_base_gufunc.h b/src/convert_to_base/convert_to_base_gufunc.h
index 2ef4a74..57945e4 100644
--- a/src/convert_to_base/convert_to_base_gufunc.h
+++ b/src/convert_to_base/convert_to_base_gufunc.h
@@ -20,6 +20,19 @@ static void convert_to_base_core_calc(
 {
     T k = *p_k;
     T base = *p_base;
+
+    if (base == 0) {
+        NPY_ALLOW_C_API_DEF
+        NPY_ALLOW_C_API
+        PyErr_SetString(PyExc_ValueError, "base must not be 0.");
+        NPY_DISABLE_C_API
+        return;
+    }
+    if (base == static_cast<T>(-1) && base < 0) {
+        // All the digits are 0.  This is handled separately because
+        // k / base overflows when k is the minimum of a signed type.
+        k = 0;
+    }
     for (npy_intp i = 0; i < n; ++i) {
         set(p_out, out_stride, i, static_cast<T>(k % base));
         k = k / base;
-- 
2.43.0


From 6c79dfe4b7ad2acbd21b0380e96f0f8ea8a70cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 09/40] fix: tri_area: return 0 instead of nan for collinear
 points

Rounding error can make the computed length of the longest side slightly
greater than the sum of the other two, and the result was then the square
root of a negative number.
---
 src/tri_area/tri_area_gufunc.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index af58cfd..2189ad4 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -71,6 +71,10 @@ tri_area_common_calc(
     //
     T f1 = a + (b + c);
     T f2 = (c - (a - b));
+    if (f2 < 0) {
+        // The points are collinear; c < a - b is the result of rounding error.
+        f2 = 0;
+    }
     T f3 = (c + (a - b));
     T f4 = (a + (b - c));
     *p_out = std::sqrt(f1*f2*f3*f4)/4;
-- 
2.43.0


From 333b533d9eef22bd0a100c2a9c0f5811ff870c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 10/40] fix: vnorm: propagate nan and handle infinite elements

A nan was ignored when all the other elements were 0 (e.g. vnorm([nan], 2)
was 0) or when the order was inf, and an infinite element gave nan instead
of inf because inf/inf was computed.
---
 src/vnorm/vnorm_gufunc.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 659c797..7ebc8d8 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -78,12 +78,16 @@ static void vnorm_core_calc(
     for (int k = 0; k < n; ++k) {
         T current_x = get(p_x, x_stride, k);
         U abs_x = my_abs(current_x);
+        if (std::isnan(abs_x)) {
+            p_out[0] = NPY_NAN;
+            return;
+        }
         if (abs_x > maxabsx) {
             maxabsx = abs_x;
         }
     }
-    if (maxabsx == 0) {
-        p_out[0] = 0;
+    if (maxabsx == 0 || std::isinf(maxabsx)) {
+        p_out[0] = maxabsx;
     }
     else {
         U sum = 0;
-- 
2.43.0


From c1c6fe57e92672d21ddbfd163378469c1b40e122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 11/40] fix: linear_interp1d: do not read xp when its length is
 0

The code path for a single x and xp did not check n before accessing the
first and last elements of xp.
---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index 1462f61..f25205b 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -89,7 +89,7 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
     npy_intp xp_stride = steps[4];
     npy_intp fp_stride = steps[5];
 
-    if ((steps[0] == 0) && (steps[1] == 0)) {
+    if ((n > 0) && (steps[0] == 0) && (steps[1] == 0)) {
         @ctype@ x = *((@ctype@ *) px);
 
         @ctype@ left = *((@ctype@ *) pxp);
-- 
2.43.0


From a538f145550cfecf52c6ad0957c5842e270503bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 12/40] fix: gmean, gmeanw: return nan if the input contains
 -inf

The check for infinity was made before the check for negative values, so
-inf gave inf, but the result is nan if any value is negative.
---
 src/means/means_gufunc.c.src | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 149457a..26fa8ee 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -57,16 +57,16 @@
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += logx;
@@ -137,16 +137,16 @@ static void gmean_@typename@_loop(char **args, const npy_intp *dimensions,
             has_nan = true;
             break;
         }
+        else if (x < 0.0) {
+            has_neg = true;
+            break;
+        }
         else if (isinf(x)) {
             has_inf = true;
         }
         else if (x == 0) {
             has_zero = true;
         }
-        else if (x < 0.0) {
-            has_neg = true;
-            break;
-        }
         else {
             @ctype_out@ logx = log@funcsuffix@(x);
             sumlog += w*logx;
-- 
2.43.0


From ea2603b2898fb72e7870d1024cfc37c4b1e41645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:09 +0000
Subject: [PATCH 13/40] fix: pmean, pmeanw: handle 0 and inf when p is tiny but
 not 0

The correction term of the small p approximation was nan if the geometric
mean was 0 or inf.
---
 src/means/means_gufunc.c.src | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 26fa8ee..176ba1b 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -332,7 +332,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         if (fabs@funcsuffix@(p) < 2e-6) {
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmean_@typename@_1d(in0, dimensions[1], inner_step);
-            if (p != 0) {
+            // If gm is 0, inf or nan, it is also the limit as p -> 0, and
+            // the correction can't be computed.
+            if (p != 0 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
@@ -471,7 +473,9 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             // In the limit p == 0, the power mean becomes the geometric mean.
             @ctype_out@ gm = gmeanw_@typename@_1d(in0, in1, dimensions[1],
                                                   inner0_step, inner1_step);
-            if (p != 0) {
+            // If gm is 0, inf or nan, it is also the limit as p -> 0, and
+            // the correction can't be computed.
+            if (p != 0 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
                 @ctype_out@ sumlnx = 0;
                 @ctype_out@ sumlnx_sq = 0;
-- 
2.43.0


From 4eca29b44ae686c61fb2646a035eebc0745d3a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:45 +0000
Subject: [PATCH 14/40] fix: sosfilter*: with no sections, copy the input to
 the output

If sos has shape (0, 6), the output was left uninitialized.
---
 src/sosfilter/sosfilter_gufunc.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 69877cc..129eaf9 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -44,7 +44,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi + get2d(p_zf, zf_strides, k, 0);
-                p_y[i] = yi;
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -57,6 +56,8 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            // If there are no sections, the output is the input.
+            p_y[i] = xi;
         }
     }
     else {
@@ -66,7 +67,6 @@ static void sosfilter_ic_core(
 
                 // y[i] = sos[k, 0]*xi + zf[k, 0];
                 T yi = get2d(p_sos, sos_strides, k, 0) * xi +get2d(p_zf, zf_strides, k, 0);
-                set(p_y, y_stride, i, yi);
 
                 // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
                 T tmp1 = get2d(p_zf, zf_strides, k, 1) + get2d(p_sos, sos_strides, k, 1)*xi
@@ -79,6 +79,7 @@ static void sosfilter_ic_core(
 
                 xi = yi;
             }
+            set(p_y, y_stride, i, xi);
         }
     }
 }
@@ -114,7 +115,6 @@ static void sosfilter_ic_contig_core(
 
             // y[i] = sos[k, 0]*xi + zf[k, 0];
             T yi = (*(p_sos + 6*k))*xi + (*(p_zf + 2*k));
-            p_y[i] = yi;
 
             // zf[k, 0] = zf[k, 1] + sos[k, 1]*xi - sos[k, 4]*y[i];
             *(p_zf + 2*k) = (*(p_zf + 2*k + 1)) + (*(p_sos + 6*k + 1))*xi - (*(p_sos + 6*k + 4))*yi;
@@ -124,6 +124,7 @@ static void sosfilter_ic_contig_core(
 
             xi = yi;
         }
+        p_y[i] = xi;
     }
 }
 
-- 
2.43.0


From 70dec8421ed36e14de940bb2b135a6dafbf15103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:10 +0000
Subject: [PATCH 15/40] fix: gendot: do not reduce with loops that have
 different input and output types

The reduction feeds the output of the loop back as its first input.  For a
loop such as 'dd->?' of logical_or, the bytes of the bool were interpreted
as part of a double, and the result was wrong.
---
 ufunclab/_gendot_wrap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index 93db795..b6f3534 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -167,7 +167,12 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
             continue
         prod_outtype = prod_type.replace(' ', '')[-1]
         for j, sum_type in enumerate(sumfunc.types):
-            sum_intype = sum_type.replace(' ', '').split('->')[0]
+            sum_intype, sum_outtype = sum_type.replace(' ', '').split('->')
+            if sumfunc.nin == 2 and sum_outtype != prod_outtype:
+                # The result of applying the loop can't be an input of
+                # the next application of the loop, so the loop can't be
+                # used to compute a reduction.
+                continue
             if sum_intype == sumfunc.nin*prod_outtype:
                 loop_indices.append((i, j))
                 dot_types.append((prod_type, sum_type))
-- 
2.43.0


From 2c2cee2b4d22469d31bd7ec1871d870b0aec5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:27 +0000
Subject: [PATCH 16/40] fix: gendot: size the temporary array for the output
 type of prodfunc

The temporary array holds the output of prodfunc, but it was allocated and
indexed with the size of the output type of sumfunc.  If the latter is
smaller (e.g. the output of prodfunc is longdouble and sumfunc is argmin),
the array was overrun.
---
 src/gendot/gendotmodule.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/gendot/gendotmodule.c b/src/gendot/gendotmodule.c
index 9edbc43..f53c1ab 100644
--- a/src/gendot/gendotmodule.c
+++ b/src/gendot/gendotmodule.c
@@ -17,6 +17,7 @@ typedef struct gendot_data_t {
     void *prodfunc_loop_data;
     PyUFuncGenericFunction *sumfunc_loop;
     void *sumfunc_loop_data;
+    npy_intp prodfunc_loop_itemsize;
     npy_intp sumfunc_loop_itemsize;
     npy_intp sumfunc_nin;
     npy_intp sumfunc_has_identity; // actual values are only 0 or 1.
@@ -29,6 +30,7 @@ typedef struct gendot_data_t {
 #define PRODFUNC_LOOP_DATA(p)       (((gendot_data_t *)(p))->prodfunc_loop_data)
 #define SUMFUNC_LOOP(p)             (((gendot_data_t *)(p))->sumfunc_loop)
 #define SUMFUNC_LOOP_DATA(p)        (((gendot_data_t *)(p))->sumfunc_loop_data)
+#define PRODFUNC_LOOP_ITEMSIZE(p)   (((gendot_data_t *)(p))->prodfunc_loop_itemsize)
 #define SUMFUNC_LOOP_ITEMSIZE(p)    (((gendot_data_t *)(p))->sumfunc_loop_itemsize)
 #define SUMFUNC_NIN(p)              (((gendot_data_t *)(p))->sumfunc_nin)
 #define SUMFUNC_HAS_IDENTITY(p)     (((gendot_data_t *)(p))->sumfunc_has_identity)
@@ -99,6 +101,9 @@ gendot_loop(char **args, const npy_intp *dimensions,
     npy_intp prodfunc_dimensions[3];
     npy_intp prodfunc_steps[3];
 
+    // The size of the items in the temporary array that holds the output
+    // of prodfunc, and the size of the items in the output array.
+    size_t tmp_itemsize = PRODFUNC_LOOP_ITEMSIZE(data);
     size_t itemsize = SUMFUNC_LOOP_ITEMSIZE(data);
 
     if (dimensions[1] == 0) {
@@ -122,14 +127,14 @@ gendot_loop(char **args, const npy_intp *dimensions,
         }
     }
 
-    char *tmp = malloc(dimensions[1] * itemsize);
+    char *tmp = malloc(dimensions[1] * tmp_itemsize);
     if (tmp == NULL) {
         NPY_ALLOW_C_API_DEF
         NPY_ALLOW_C_API
             PyErr_Format(PyExc_MemoryError,
                 "Unable to allocate %ld bytes (%ld items, each with size %ld) "
                 "for intermediate calculation",
-                dimensions[1] * itemsize, dimensions[1], itemsize);
+                dimensions[1] * tmp_itemsize, dimensions[1], tmp_itemsize);
         NPY_DISABLE_C_API
         return;
     }
@@ -145,7 +150,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
     }
     prodfunc_steps[0] = steps[3];
     prodfunc_steps[1] = steps[4];
-    prodfunc_steps[2] = itemsize;
+    prodfunc_steps[2] = tmp_itemsize;
 
     PyUFuncGenericFunction * sumfunc_loop = SUMFUNC_LOOP(data);
     void *sumfunc_loop_data = SUMFUNC_LOOP_DATA(data);
@@ -161,7 +166,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
             ((PyUFuncGenericFunction)prodfunc_loop)(prodfunc_args, prodfunc_dimensions,
                                                     prodfunc_steps, prodfunc_data);
             reduce(sumfunc_loop, sumfunc_loop_data,
-                   tmp, dimensions[1], itemsize, itemsize, pout);
+                   tmp, dimensions[1], tmp_itemsize, tmp_itemsize, pout);
         }
     }
     else {
@@ -171,7 +176,7 @@ gendot_loop(char **args, const npy_intp *dimensions,
         // sumfunc_args[1] is updated in each iteration of the loop below.
         char *sumfunc_args[2] = {tmp, NULL};
         npy_intp sumfunc_dimensions[2] = {1, dimensions[1]};
-        npy_intp sumfunc_steps[3] = {0, 0, itemsize};
+        npy_intp sumfunc_steps[3] = {0, 0, tmp_itemsize};
         // Note that sumfunc_steps[0] and sumfunc_steps[1] will not actually be
         // used in sumfunc_loop, because sumfunc_dimensions[0] is 1.
 
@@ -315,6 +320,9 @@ gendot(PyObject *self, PyObject *args, PyObject *kwargs)
         gendot_data[i].sumfunc_loop = (PyUFuncGenericFunction *) sumfunc->functions[sum_index];
         gendot_data[i].sumfunc_loop_data = sumfunc->data[sum_index];
         gendot_data[i].sumfunc_nin = (npy_intp) sumfunc->nin;
+        PyArray_Descr *prod_descr = PyArray_DescrFromType(prodfunc->types[3*prod_index + 2]);
+        gendot_data[i].prodfunc_loop_itemsize = PyDataType_ELSIZE(prod_descr);
+        Py_DECREF(prod_descr);
         gendot_data[i].sumfunc_loop_itemsize = gendot_itemsizes[i];
         gendot_data[i].sumfunc_has_identity = (npy_intp) sumfunc_has_identity;
         memcpy(gendot_data[i].sumfunc_identity_buffer,
-- 
2.43.0


From d86298fb9e60088a20855a019c8dc2fac04af38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:57 +0000
Subject: [PATCH 17/40] fix: ordered: compare adjacent elements of object
 arrays

---
 src/ordered/ordered_gufunc.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index 5dc8515..d42ee98 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -143,6 +143,7 @@ static void ordered_core_object(
                 *p_out = false;
                 break;
             }
+            x1 = x2;
         }
     }
 }
-- 
2.43.0


From 149a75393f98c3b36e5fd7fc8abc0c22a9dba4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:24 +0000
Subject: [PATCH 18/40] fix: semivar: return sill at h == range, as documented

---
 src/semivar/semivar.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/semivar/semivar.h b/src/semivar/semivar.h
index b8c2370..cfdd566 100644
--- a/src/semivar/semivar.h
+++ b/src/semivar/semivar.h
@@ -14,7 +14,7 @@ Real semivar_linear(Real h, Real nugget, Real sill, Real range)
 {
     Real v;
 
-    if (h > range) {
+    if (h >= range) {
         v = sill;
     }
     else {
@@ -29,7 +29,7 @@ Real semivar_spherical(Real h, Real nugget, Real sill, Real range)
 {
     Real v, hor;
 
-    if (h > range) {
+    if (h >= range) {
         v = sill;
     }
     else {
@@ -44,7 +44,7 @@ Real semivar_parabolic(Real h, Real nugget, Real sill, Real range)
 {
     Real v, hor;
 
-    if (h > range) {
+    if (h >= range) {
         v = sill;
     }
     else {
-- 
2.43.0


From cd28489e310cd03ffc89e95ef6a8dfe7b8395869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:24 +0000
Subject: [PATCH 19/40] fix: gendot: convert the identity of sumfunc to
 unsigned types

---
 ufunclab/_gendot_wrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ufunclab/_gendot_wrap.py b/ufunclab/_gendot_wrap.py
index b6f3534..6476819 100644
--- a/ufunclab/_gendot_wrap.py
+++ b/ufunclab/_gendot_wrap.py
@@ -193,7 +193,9 @@ def gendot(prodfunc, sumfunc, name=None, doc=None):
     if sumfunc.identity is not None:
         sumfunc_has_identity = True
         for k, tc in enumerate(typechars):
-            identity = np.dtype(tc[-1]).type(sumfunc.identity)
+            # Use astype() so that the identity -1 of np.bitwise_and is
+            # converted to all ones for the unsigned integer types.
+            identity = np.array(sumfunc.identity).astype(tc[-1])[()]
             size = identity.itemsize
             identity_bytes = identity.view(np.dtype(('B', (size,))))
             sumfunc_identity_array[k, :size] = identity_bytes
-- 
2.43.0


From 2e05f0c34fbfa01f669cc782ed9a7ee9940b7276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:24 +0000
Subject: [PATCH 20/40] fix: hmean, hmeanw: nan in the data gives nan also
 after a zero

---
 src/means/means_gufunc.c.src | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 176ba1b..44abf5f 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -226,8 +226,9 @@ static void hmean_@typename@_loop(char **args, const npy_intp *dimensions,
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
             if (x == 0) {
-                sumrecip = NPY_INFINITY;
-                break;
+                // Don't break: a nan might follow.
+                sumrecip += NPY_INFINITY;
+                continue;
             }
             sumrecip += 1.0L / x;
         }
@@ -245,11 +246,12 @@ static void hmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_in@ x = *(@ctype_in@ *) in0;
         @ctype_in@ w = *(@ctype_in@ *) in1;
         // XXX/TODO: Handle various combination of inf and nan in x and w...
+        sumw += w;
         if (x == 0) {
-            sumrecip = NPY_INFINITY;
-            break;
+            // Don't break: a nan might follow.
+            sumrecip += NPY_INFINITY;
+            continue;
         }
-        sumw += w;
         sumrecip += w/x;
     }
     return sumw / sumrecip;
-- 
2.43.0


From 63c0d678fdacc608ebd4fda758cde7845052d412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:32 +0000
Subject: [PATCH 21/40] fix: pmean, pmeanw: nan for negative values also when p
 == -1, as documented

---
 src/means/means_gufunc.c.src | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 44abf5f..4bfef86 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -353,14 +353,6 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            char *args2[2] = {in0, out};
-            npy_intp dims2[2] = {1, dimensions[1]};
-            npy_intp steps2[3] = {in0_step, out_step, inner_step};
-            hmean_@typename@_loop(args2, dims2, steps2, NULL);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
@@ -389,6 +381,14 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            char *args2[2] = {in0, out};
+            npy_intp dims2[2] = {1, dimensions[1]};
+            npy_intp steps2[3] = {in0_step, out_step, inner_step};
+            hmean_@typename@_loop(args2, dims2, steps2, NULL);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
@@ -499,12 +499,6 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = gm;
             continue;
         }
-        else if (p == -1) {
-            // p == -1 is the harmonic mean.
-            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
-                                                        inner0_step, inner1_step);
-            continue;
-        }
         // Get the min and max, and check for nan, inf and negative values.
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
                                                      inner1 += inner1_step) {
@@ -534,6 +528,12 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             *(@ctype_out@ *) out = NPY_NAN;
             continue;
         }
+        if (p == -1) {
+            // p == -1 is the harmonic mean.
+            *(@ctype_out@ *) out = hmeanw_@typename@_1d(in0, in1, dimensions[1],
+                                                        inner0_step, inner1_step);
+            continue;
+        }
         if (xmax == xmin) {
             // All the values in x are the same.
             *(@ctype_out@ *) out = xmax;
-- 
2.43.0


From 65f862954e8cd5d488ddb2d951ffa664104ec630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:51 +0000
Subject: [PATCH 22/40] fix: pmean, pmeanw: use powl for long double

---
 src/means/means_gufunc.c.src | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 4bfef86..f396d36 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -35,6 +35,7 @@
  * #ctype_in      = float, double, long double#
  * #ctype_out     = float, double, long double#
  * #funcsuffix    = f, , l#
+ * #powsuffix     = , , l#
  */
 
 @ctype_out@ gmean_@typename@_1d(char *arg, const npy_intp n, const npy_intp step)
@@ -417,9 +418,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_out@ scale = (p > 0) ? xmax : xmin;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
-            sum += pow(x/scale, p);
+            sum += pow@powsuffix@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/dimensions[1], 1/p);
+        *(@ctype_out@ *) out = scale*pow@powsuffix@(sum/dimensions[1], 1/p);
     }
 }
 
@@ -568,9 +569,9 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
             @ctype_in@ x = *(@ctype_in@ *) inner0;
             @ctype_in@ w = *(@ctype_in@ *) inner1;
             sumw += w;
-            sum += w*pow(x/scale, p);
+            sum += w*pow@powsuffix@(x/scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow(sum/sumw, 1/p);
+        *(@ctype_out@ *) out = scale*pow@powsuffix@(sum/sumw, 1/p);
     }
 }
 
-- 
2.43.0


From 70de217294315db34d9d7e9783a0654311980013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:09 +0000
Subject: [PATCH 23/40] fix: make bincount count into an array of its own type

The gufuncs behind bincount add to the values in their output, but NumPy does
not copy the initial values of an output that it has to cast or buffer, so
the counts were added to uninitialized memory when 'out' was not a native,
aligned array of the type of the loop, or when the weights were float16 or
not in native byte order.
---
 ufunclab/_wrapped.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/ufunclab/_wrapped.py b/ufunclab/_wrapped.py
index b083ec3..0ddb333 100644
--- a/ufunclab/_wrapped.py
+++ b/ufunclab/_wrapped.py
@@ -44,6 +44,15 @@ def bad_integer_error(name, value):
     return ValueError(f"{name} must be an integer; got {value!r}")
 
 
+def _sum_dtype(x, weights):
+    # The output type of the loop of _bincountw for these arguments.
+    for types in _bincountw.types:
+        if (np.can_cast(x.dtype, types[0]) and
+                np.can_cast(weights.dtype, types[1])):
+            return np.dtype(types[-1])
+    return weights.dtype
+
+
 def bincount(x, m=None, weights=None, *, out=None, axis=-1):
     """
     Count the number of occurrences of the positive integers in the 1-d
@@ -185,7 +194,12 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=weights.dtype)
 
-        return _bincountw(x, weights, out=out, axes=[axis, axis, axis])
+        # The gufunc adds to the values in its output, so its output must be an
+        # array that it can use as is: if NumPy has to cast it or buffer it,
+        # the initial values are lost.
+        sums = np.zeros(out_shape, dtype=_sum_dtype(x, weights))
+        _bincountw(x, weights, out=sums, axes=[axis, axis, axis])
+        return np.add(out, sums, out=out)
     else:
         x_shape = x.shape
         adjusted_axis = _normalize_axis(x.ndim, axis)
@@ -199,7 +213,10 @@ def bincount(x, m=None, weights=None, *, out=None, axis=-1):
         else:
             out = np.zeros(out_shape, dtype=np.intp)
 
-        return _bincount(x, out=out, axes=[axis, axis])
+        # As above, don't pass `out` to the gufunc.
+        counts = np.zeros(out_shape, dtype=np.intp)
+        _bincount(x, out=counts, axes=[axis, axis])
+        return np.add(out, counts, out=out)
 
 
 bincount._bincount = _bincount
-- 
2.43.0


From 071c44eccfb19d26beea180f4cd0b2b0c438aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:04 +0000
Subject: [PATCH 24/40] fix: backlash_sum with an output that is one of the
 inputs

NumPy leaves it to the loop to handle an output that is the same array as an
input, and backlash_sum updates its outputs while it still uses x, w and
deadband.
---
 src/backlash/backlash_gufunc.h | 36 +++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/backlash/backlash_gufunc.h b/src/backlash/backlash_gufunc.h
index cff1829..a917a94 100644
--- a/src/backlash/backlash_gufunc.h
+++ b/src/backlash/backlash_gufunc.h
@@ -4,6 +4,9 @@
 #define PY_SSIZE_T_CLEAN
 #include "Python.h"
 
+#include <new>      // for std::bad_alloc
+#include <vector>
+
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
 #include "numpy/ndarraytypes.h"
 
@@ -49,11 +52,11 @@ backlash_sum_core(
         npy_intp n,                     // core dimension n
         npy_intp m,                     // core dimension m
         T *p_x,                         // pointer to first element of x, a strided 1-d array with shape (n,)
-        const npy_intp x_stride,        // stride (in bytes) of x
+        npy_intp x_stride,              // stride (in bytes) of x
         T *p_w,                         // pointer to first element of w, a strided 1-d array with shape (m,)
-        const npy_intp w_stride,        // stride (in bytes) of w
+        npy_intp w_stride,              // stride (in bytes) of w
         T *p_deadband,                  // pointer to first element of deadband, a strided 1-d array with shape (m,)
-        const npy_intp deadband_stride, // stride (in bytes) of deadband
+        npy_intp deadband_stride,       // stride (in bytes) of deadband
         T *p_initial,                   // pointer to initial
         const npy_intp initial_stride,  // stride (in bytes) of initial, a strided 1-d array with shape (m,)
         T *p_out,                       // pointer to out, a strided 1-d array with shape (n,)
@@ -62,6 +65,33 @@ backlash_sum_core(
         const npy_intp final_stride     // stride (in bytes) of final
 )
 {
+    // NumPy copies an input that overlaps an output, unless the input and the
+    // output are the same array.  The outputs are updated while x, w and
+    // deadband are still in use, so in that case they must be copied here.
+    std::vector<T> tmp;
+    if (p_x == p_final || p_w == p_out || p_w == p_final
+            || p_deadband == p_out || p_deadband == p_final) {
+        try {
+            tmp.resize(n + 2*m);
+        } catch (const std::bad_alloc& e) {
+            NPY_ALLOW_C_API_DEF
+            NPY_ALLOW_C_API
+                PyErr_NoMemory();
+            NPY_DISABLE_C_API
+            return;
+        }
+        for (npy_intp k = 0; k < n; ++k) {
+            tmp[k] = get(p_x, x_stride, k);
+        }
+        for (npy_intp j = 0; j < m; ++j) {
+            tmp[n + j] = get(p_w, w_stride, j);
+            tmp[n + m + j] = get(p_deadband, deadband_stride, j);
+        }
+        p_x = tmp.data();
+        p_w = tmp.data() + n;
+        p_deadband = tmp.data() + n + m;
+        x_stride = w_stride = deadband_stride = sizeof(T);
+    }
     for (npy_intp j = 0; j < m; ++j) {
         set(p_final, final_stride, j, get(p_initial, initial_stride, j));
     }
-- 
2.43.0


From 4cc3114d67e1930bde260d852c7907a666bb7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 25/40] fix: stop a batch of object arrays at the first
 exception

---
 tools/cxxgen/gufuncgen.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/cxxgen/gufuncgen.py b/tools/cxxgen/gufuncgen.py
index eda6fe3..b153603 100644
--- a/tools/cxxgen/gufuncgen.py
+++ b/tools/cxxgen/gufuncgen.py
@@ -356,6 +356,12 @@ def generate_concrete_loop(name, corename, varnames,
             line.append(', ')
         text.append(''.join(line))
 
+    if 'PyObject *' in var_ctypes:
+        # Don't process the rest of the batch after an exception.
+        text.append('        if (PyErr_Occurred()) {')
+        text.append('            return;')
+        text.append('        }')
+
     text.append('    }')
 
     text.append('}')
-- 
2.43.0


From fefa862233f7a64cbe38a5829b975a3e588ef4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:28 +0000
Subject: [PATCH 26/40] fix: release the objects that out= held before

---
 src/cross/cross_gufunc.h               | 8 +++++++-
 src/first/first_gufunc.h               | 6 ++++--
 src/minmax/minmax_gufunc.h             | 8 ++++++--
 src/peaktopeak/peaktopeak_gufunc.c.src | 2 +-
 4 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/cross/cross_gufunc.h b/src/cross/cross_gufunc.h
index 77eb24f..396ef40 100644
--- a/src/cross/cross_gufunc.h
+++ b/src/cross/cross_gufunc.h
@@ -106,9 +106,15 @@ cross3_core_calc_object(
         return;
     }
 
+    PyObject* old0 = get(p_out, out_stride, 0);
+    PyObject* old1 = get(p_out, out_stride, 1);
+    PyObject* old2 = get(p_out, out_stride, 2);
     set(p_out, out_stride, 0, out0);
     set(p_out, out_stride, 1, out1);
     set(p_out, out_stride, 2, out2);
+    Py_XDECREF(old0);
+    Py_XDECREF(old1);
+    Py_XDECREF(old2);
 }
 
 //
@@ -156,7 +162,7 @@ cross2_core_calc_object(
     if (out == NULL) {
         return;
     }
-    p_out[0] = out;
+    Py_XSETREF(p_out[0], out);
 }
 
 #endif  // UFUNCLAB_CROSS_GUFUNC_H
diff --git a/src/first/first_gufunc.h b/src/first/first_gufunc.h
index d4e9ac5..82debde 100644
--- a/src/first/first_gufunc.h
+++ b/src/first/first_gufunc.h
@@ -171,8 +171,10 @@ first_core_calc_object(
             }
         }
     }
-    Py_XINCREF(result);
-    *p_out = result;
+    if (result != NULL) {
+        Py_INCREF(result);
+        Py_XSETREF(*p_out, result);
+    }
 }
 
 
diff --git a/src/minmax/minmax_gufunc.h b/src/minmax/minmax_gufunc.h
index 48e6815..5a9bdc2 100644
--- a/src/minmax/minmax_gufunc.h
+++ b/src/minmax/minmax_gufunc.h
@@ -66,10 +66,14 @@ static void minmax_object_core(
             }
         }
     }
+    PyObject *old_min = *p_out;
+    PyObject *old_max = get(p_out, out_stride, 1);
     Py_INCREF(xmin);
     Py_INCREF(xmax);
     *p_out = xmin;
     set(p_out, out_stride, 1, xmax);
+    Py_XDECREF(old_min);
+    Py_XDECREF(old_max);
 }
 
 
@@ -283,7 +287,7 @@ static void min_argmin_object_core(
         }
     }
     Py_INCREF(xmin);
-    *p_out1 = xmin;
+    Py_XSETREF(*p_out1, xmin);
     *p_out2 = xmin_index;
 }
 
@@ -334,7 +338,7 @@ static void max_argmax_object_core(
         }
     }
     Py_INCREF(xmax);
-    *p_out1 = xmax;
+    Py_XSETREF(*p_out1, xmax);
     *p_out2 = xmax_index;
 }
 
diff --git a/src/peaktopeak/peaktopeak_gufunc.c.src b/src/peaktopeak/peaktopeak_gufunc.c.src
index 31ddbfa..2bb6bc3 100644
--- a/src/peaktopeak/peaktopeak_gufunc.c.src
+++ b/src/peaktopeak/peaktopeak_gufunc.c.src
@@ -227,7 +227,7 @@ static void peaktopeak_object_loop(char **args, const npy_intp *dimensions,
         if (diff == NULL) {
             return;
         }
-        *((PyObject **) out) = diff;
+        Py_XSETREF(*((PyObject **) out), diff);
     }
 }
 
-- 
2.43.0


From 34a1db250f4e88ef215f8651a4ae89729563de44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 27/40] fix: list erfcx in __all__ and dir()

---
 ufunclab/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ufunclab/__init__.py b/ufunclab/__init__.py
index 80654ad..883296a 100644
--- a/ufunclab/__init__.py
+++ b/ufunclab/__init__.py
@@ -140,7 +140,7 @@ class op:
 del _np, _LT, _LE, _EQ, _NE, _GT, _GE, _RANK, _WEAK, _STRICT, _MEAN
 
 __all__ = sorted(list(_name_to_module.keys()) +
-                 ['first', 'argfirst', 'op', 'percentileofscore'])
+                 ['first', 'argfirst', 'op', 'percentileofscore', 'erfcx'])
 
 
 def __dir__():
-- 
2.43.0


From 4c083f63d90be6659fcd95c50119cb3f2bc848ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 28/40] fix: expint1, logexpint1: enough terms for extended
 precision

---
 src/expint1/expint1.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expint1/expint1.h b/src/expint1/expint1.h
index 8c11532..2a269df 100644
--- a/src/expint1/expint1.h
+++ b/src/expint1/expint1.h
@@ -55,7 +55,7 @@ static T expint1_t(T x)
 {
     // The number of terms to use in the truncated continued fraction
     // depends on x.  Larger values of x require fewer terms.
-    int m = 20 + (int) ((T) 80.0 / x);
+    int m = 20 + (int) ((T) 160.0 / x);
     T t0 = 0.0;
     for (int k = m; k > 0; --k) {
         t0 = k/(1 + k/(x + t0));
@@ -109,7 +109,7 @@ T logexpint1(T x)
     }
     // For large x, use the asymptotic expansion.  This is equation 5.1.51
     // from Abramowitz & Stegun, "Handbook of Mathematical Functions".
-    T s = (-1 + (2 + (-6 + (24 - 120/x)/x)/x)/x)/x;
+    T s = (-1 + (2 + (-6 + (24 + (-120 + (720 - 5040/x)/x)/x)/x)/x)/x)/x;
     return -x - std::log(x) + std::log1p(s);
 }
 
-- 
2.43.0


From 88b6d8b4a6830134a7acd07ddb9929e9fd6af87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 29/40] fix: hyperbolic_ramp and exponential_ramp return inf
 when x/a overflows

---
 src/ramp/ramp.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ramp/ramp.h b/src/ramp/ramp.h
index f23a5db..5425d6f 100644
--- a/src/ramp/ramp.h
+++ b/src/ramp/ramp.h
@@ -64,7 +64,13 @@ T hyperbolic_ramp(T x, T a)
     } else if (a < 0) {
         return std::numeric_limits<T>::quiet_NaN();
     } else {
-        return a*std_hyperbolic_ramp(x/a);
+        T z = x/a;
+        if (std::isinf(z)) {
+            // x is infinite, or it is so large compared to a that x/a
+            // overflows.
+            return (x < 0) ? 0.0 : x;
+        }
+        return a*std_hyperbolic_ramp(z);
     }
 }
 
@@ -99,7 +105,13 @@ T exponential_ramp(T x, T a)
     } else if (a < 0) {
         return std::numeric_limits<T>::quiet_NaN();
     } else {
-        return a*std_exponential_ramp(x/a);
+        T z = x/a;
+        if (std::isinf(z)) {
+            // x is infinite, or it is so large compared to a that x/a
+            // overflows.
+            return (x < 0) ? 0.0 : x;
+        }
+        return a*std_exponential_ramp(z);
     }
 }
 
-- 
2.43.0


From dca43b001aad9d13247dae230c326f0db8bc78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 30/40] fix: yeo_johnson and inv_yeo_johnson overflow or
 underflow in intermediate results

---
 src/yeo_johnson/yeo_johnson.h | 45 +++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/yeo_johnson/yeo_johnson.h b/src/yeo_johnson/yeo_johnson.h
index e64ea85..38b12d1 100644
--- a/src/yeo_johnson/yeo_johnson.h
+++ b/src/yeo_johnson/yeo_johnson.h
@@ -4,6 +4,43 @@
 #include <cmath>
 #include <limits>
 
+//
+// Compute (exp(c*t) - 1)/c.  If c*t is positive, c must be positive.
+//
+template<typename T>
+T expm1_scaled(T t, T c)
+{
+    T y = c*t;
+    if (std::abs(y) < std::numeric_limits<T>::epsilon()/4) {
+        // c*t might underflow.
+        return t;
+    }
+    T e = std::expm1(y);
+    if (std::isinf(e)) {
+        // The result can be finite even if exp(y) overflows.
+        return std::exp(y - std::log(c));
+    }
+    return e/c;
+}
+
+//
+// Compute log(1 + c*x)/c.  If c*x is positive, c must be positive.
+//
+template<typename T>
+T log1p_scaled(T x, T c)
+{
+    T y = c*x;
+    if (std::abs(y) < std::numeric_limits<T>::epsilon()/4) {
+        // c*x might underflow.
+        return x;
+    }
+    if (std::isinf(y)) {
+        // c*x might overflow.
+        return (std::log(c) + std::log(x))/c;
+    }
+    return std::log1p(y)/c;
+}
+
 template<typename T>
 T yeo_johnson(T x, T lmbda)
 {
@@ -12,7 +49,7 @@ T yeo_johnson(T x, T lmbda)
             return std::log1p(x);
         }
         else {
-            return std::expm1(lmbda*std::log1p(x))/lmbda;
+            return expm1_scaled(std::log1p(x), lmbda);
         }
     }
     else {
@@ -20,7 +57,7 @@ T yeo_johnson(T x, T lmbda)
             return -std::log1p(-x);
         }
         else {
-            return -std::expm1((2 - lmbda)*std::log1p(-x))/(2 - lmbda);
+            return -expm1_scaled(std::log1p(-x), 2 - lmbda);
         }
     }
 }
@@ -38,7 +75,7 @@ T inv_yeo_johnson(T x, T lmbda)
                                     : std::numeric_limits<T>::infinity();
             }
             else {
-                return std::expm1(std::log1p(lmbda*x)/lmbda);
+                return std::expm1(log1p_scaled(x, lmbda));
             }
         }
     }
@@ -53,7 +90,7 @@ T inv_yeo_johnson(T x, T lmbda)
                                          : -std::numeric_limits<T>::infinity();
             }
             else {
-                return -std::expm1(std::log1p(-(2 - lmbda)*x)/(2 - lmbda));
+                return -std::expm1(log1p_scaled(-x, 2 - lmbda));
             }
         }
     }
-- 
2.43.0


From 257687cd6d801d0ed2024a9c08864b4f0795d24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 31/40] fix: semivar.linear overflows or underflows in the
 slope

---
 src/semivar/semivar.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semivar/semivar.h b/src/semivar/semivar.h
index cfdd566..097e850 100644
--- a/src/semivar/semivar.h
+++ b/src/semivar/semivar.h
@@ -18,8 +18,8 @@ Real semivar_linear(Real h, Real nugget, Real sill, Real range)
         v = sill;
     }
     else {
-        Real slope = (sill - nugget) / range;
-        v = nugget + slope * h;
+        // (sill - nugget) / range can overflow, but h / range < 1.
+        v = nugget + (sill - nugget) * (h / range);
     }
     return v;
 }
-- 
2.43.0


From 674fc9cd093c3f2e78d6246e5bc88ea4b7ae20ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 32/40] fix: tri_area and tri_area_indexed overflow or
 underflow in intermediate products

---
 src/tri_area/tri_area_gufunc.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/tri_area/tri_area_gufunc.h b/src/tri_area/tri_area_gufunc.h
index 2189ad4..04a2f7e 100644
--- a/src/tri_area/tri_area_gufunc.h
+++ b/src/tri_area/tri_area_gufunc.h
@@ -16,14 +16,25 @@
 template<typename T>
 static T norm_diff(npy_intp n, T *p_p, const npy_intp p_strides[2], npy_intp i1, npy_intp i2)
 {
+    T maxdx = 0.0;
+    for (int k = 0; k < n; ++k) {
+        T x1 = get2d(p_p, p_strides, i1, k);
+        T x2 = get2d(p_p, p_strides, i2, k);
+        T dx = std::abs(x2 - x1);
+        if (dx > maxdx) {
+            maxdx = dx;
+        }
+    }
+    // Scale by a power of 2 to avoid overflow and underflow in dx*dx.
+    int e = (maxdx > 0 && std::isfinite(maxdx)) ? std::ilogb(maxdx) : 0;
     T sumsq = 0.0;
     for (int k = 0; k < n; ++k) {
         T x1 = get2d(p_p, p_strides, i1, k);
         T x2 = get2d(p_p, p_strides, i2, k);
-        T dx = x2 - x1;
+        T dx = std::scalbn(x2 - x1, -e);
         sumsq += dx*dx;
     }
-    return std::sqrt(sumsq);
+    return std::scalbn(std::sqrt(sumsq), e);
 }
 
 //
@@ -77,7 +88,9 @@ tri_area_common_calc(
     }
     T f3 = (c + (a - b));
     T f4 = (a + (b - c));
-    *p_out = std::sqrt(f1*f2*f3*f4)/4;
+    // Both f1*f2 and f3*f4 have the magnitude of a*c; the product of all four
+    // factors can overflow or underflow when the area does not.
+    *p_out = std::sqrt(f1*f2)*std::sqrt(f3*f4)/4;
 }
 
 //
-- 
2.43.0


From 79e70eef13f20582867e1cfb1ea18c1fc9ee591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:55 +0000
Subject: [PATCH 33/40] fix: sosfilter: raise MemoryError when the internal
 state cannot be allocated

---
 src/sosfilter/sosfilter_gufunc.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sosfilter/sosfilter_gufunc.h b/src/sosfilter/sosfilter_gufunc.h
index 129eaf9..0b3a4f2 100644
--- a/src/sosfilter/sosfilter_gufunc.h
+++ b/src/sosfilter/sosfilter_gufunc.h
@@ -142,9 +142,14 @@ static void sosfilter_core(
 {
     npy_intp zi_strides[2];
 
-    // XXX FIXME: Check the return value of calloc for NULL.
-    // What to do if calloc() fails?
     T *zi = (T *) calloc(m*2, sizeof(T));
+    if (zi == NULL && m > 0) {
+        NPY_ALLOW_C_API_DEF
+        NPY_ALLOW_C_API
+            PyErr_NoMemory();
+        NPY_DISABLE_C_API
+        return;
+    }
     zi_strides[0] = 2*sizeof(T);
     zi_strides[1] = sizeof(T);
     if (sos_strides[0] == 6*sizeof(T) && sos_strides[1] == sizeof(T)
-- 
2.43.0


From ee48fa8e4918ab0c8b56567a94f5326a641029e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:55 +0000
Subject: [PATCH 34/40] fix: ordered: don't crash when op is not valid and x is
 an object array

---
 src/ordered/ordered_gufunc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ordered/ordered_gufunc.h b/src/ordered/ordered_gufunc.h
index d42ee98..f2eb8d2 100644
--- a/src/ordered/ordered_gufunc.h
+++ b/src/ordered/ordered_gufunc.h
@@ -129,7 +129,9 @@ static void ordered_core_object(
         const int8_t *p_op, // pointer to op (LT, LE, etc)
         npy_bool *p_out     // pointer to out
 ) {
-    int op = *p_op;
+    // PyObject_RichCompareBool accepts only the values Py_LT, ..., Py_GE.
+    // As in ordered_core(), any other value of op is treated as GE.
+    int op = (*p_op >= Py_LT && *p_op <= Py_GE) ? *p_op : Py_GE;
     *p_out = true;
     if (n > 1) {
         PyObject *x1 = *p_x;
-- 
2.43.0


From 164a33bf97635c20a88f1a58c4d208088f807625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:20 +0000
Subject: [PATCH 35/40] fix: hmean, hmeanw: don't return 0 or inf when a
 reciprocal overflows or underflows

---
 src/means/means_gufunc.c.src | 40 ++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index f396d36..4f9097f 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -223,9 +223,13 @@ static void hmean_@typename@_loop(char **args, const npy_intp *dimensions,
 
     for (npy_intp i = 0; i < dimensions[0]; ++i, in += in_step, out += out_step) {
         @ctype_out@ sumrecip = 0;
+        @ctype_in@ xmin = NPY_INFINITY;  // Smallest magnitude.
         char *inner = in;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
+            if (fabs@funcsuffix@(x) < xmin) {
+                xmin = fabs@funcsuffix@(x);
+            }
             if (x == 0) {
                 // Don't break: a nan might follow.
                 sumrecip += NPY_INFINITY;
@@ -233,7 +237,17 @@ static void hmean_@typename@_loop(char **args, const npy_intp *dimensions,
             }
             sumrecip += 1.0L / x;
         }
-        *(@ctype_out@ *) out = dimensions[1] / sumrecip;
+        @ctype_out@ h = dimensions[1] / sumrecip;
+        if ((!isnormal(sumrecip) || isinf(h)) && xmin > 0 && !isinf(xmin)) {
+            // Reciprocals overflowed or underflowed; scale them.
+            sumrecip = 0;
+            inner = in;
+            for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
+                sumrecip += xmin / *(@ctype_in@ *)inner;
+            }
+            h = (dimensions[1] / sumrecip) * xmin;
+        }
+        *(@ctype_out@ *) out = h;
     }
 }
 
@@ -242,12 +256,17 @@ static void hmean_@typename@_loop(char **args, const npy_intp *dimensions,
 {
     @ctype_out@ sumw = 0;
     @ctype_out@ sumrecip = 0;
-    for (npy_intp k = 0; k < n; ++k, in0 += step0,
-                                                 in1 += step1) {
-        @ctype_in@ x = *(@ctype_in@ *) in0;
-        @ctype_in@ w = *(@ctype_in@ *) in1;
+    @ctype_in@ xmin = NPY_INFINITY;  // Smallest magnitude.
+    char *p0 = in0;
+    char *p1 = in1;
+    for (npy_intp k = 0; k < n; ++k, p0 += step0, p1 += step1) {
+        @ctype_in@ x = *(@ctype_in@ *) p0;
+        @ctype_in@ w = *(@ctype_in@ *) p1;
         // XXX/TODO: Handle various combination of inf and nan in x and w...
         sumw += w;
+        if ((w != 0 || x == 0) && fabs@funcsuffix@(x) < xmin) {
+            xmin = fabs@funcsuffix@(x);
+        }
         if (x == 0) {
             // Don't break: a nan might follow.
             sumrecip += NPY_INFINITY;
@@ -255,7 +274,16 @@ static void hmean_@typename@_loop(char **args, const npy_intp *dimensions,
         }
         sumrecip += w/x;
     }
-    return sumw / sumrecip;
+    @ctype_out@ h = sumw / sumrecip;
+    if ((!isnormal(sumrecip) || isinf(h)) && xmin > 0 && !isinf(xmin)) {
+        // Quotients overflowed or underflowed; scale them.
+        sumrecip = 0;
+        for (npy_intp k = 0; k < n; ++k, in0 += step0, in1 += step1) {
+            sumrecip += *(@ctype_in@ *) in1 * (xmin / *(@ctype_in@ *) in0);
+        }
+        h = (sumw / sumrecip) * xmin;
+    }
+    return h;
 }
 
 
-- 
2.43.0


From c434672a69d83f4ea190e55aabdbe1c249157099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:20 +0000
Subject: [PATCH 36/40] fix: pmean, pmeanw: accurate results when p is close to
 0 and the data is widely spread

---
 src/means/means_gufunc.c.src | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index 4f9097f..c4efbf6 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -365,19 +365,18 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
             @ctype_out@ gm = gmean_@typename@_1d(in0, dimensions[1], inner_step);
             // If gm is 0, inf or nan, it is also the limit as p -> 0, and
             // the correction can't be computed.
-            if (p != 0 && gm > 0 && !isinf(gm)) {
+            // The correction is negligible if p is extremely small (in which
+            // case p*log(x) might underflow).
+            if (fabs@funcsuffix@(p) > 1e-30 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
-                @ctype_out@ sumlnx = 0;
-                @ctype_out@ sumlnx_sq = 0;
+                @ctype_out@ lngm = log@funcsuffix@(gm);
+                @ctype_out@ sum = 0;
                 inner = in0;
                 for (npy_intp k = 0; k < n; ++k, inner += inner_step) {
                     @ctype_in@ x = *(@ctype_in@ *)inner;
-                    @ctype_out@ lnx = log@funcsuffix@(x);
-                    sumlnx += lnx;
-                    sumlnx_sq += lnx*lnx;
+                    sum += expm1@funcsuffix@(p*(log@funcsuffix@(x) - lngm));
                 }
-                @ctype_out@ mean_sumlnx = sumlnx/n;
-                gm *= 1 + 0.5*p*(sumlnx_sq/n - mean_sumlnx*mean_sumlnx);
+                gm *= exp@funcsuffix@(log1p@funcsuffix@(sum/n)/p);
             }
             *(@ctype_out@ *) out = gm;
             continue;
@@ -506,10 +505,12 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
                                                   inner0_step, inner1_step);
             // If gm is 0, inf or nan, it is also the limit as p -> 0, and
             // the correction can't be computed.
-            if (p != 0 && gm > 0 && !isinf(gm)) {
+            // The correction is negligible if p is extremely small (in which
+            // case p*log(x) might underflow).
+            if (fabs@funcsuffix@(p) > 1e-30 && gm > 0 && !isinf(gm)) {
                 npy_intp n = dimensions[1];
-                @ctype_out@ sumlnx = 0;
-                @ctype_out@ sumlnx_sq = 0;
+                @ctype_out@ lngm = log@funcsuffix@(gm);
+                @ctype_out@ sum = 0;
                 inner0 = in0;
                 inner1 = in1;
                 sumw = 0;
@@ -517,13 +518,10 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
                                                  inner1 += inner1_step) {
                     @ctype_in@ x = *(@ctype_in@ *) inner0;
                     @ctype_in@ w = *(@ctype_in@ *) inner1;
-                    @ctype_out@ lnx = log@funcsuffix@(x);
                     sumw += w;
-                    sumlnx += w*lnx;
-                    sumlnx_sq += w*lnx*lnx;
+                    sum += w*expm1@funcsuffix@(p*(log@funcsuffix@(x) - lngm));
                 }
-                @ctype_out@ mean_sumlnx = sumlnx/sumw;
-                gm *= 1 + 0.5*p*(sumlnx_sq/sumw - mean_sumlnx*mean_sumlnx);
+                gm *= exp@funcsuffix@(log1p@funcsuffix@(sum/sumw)/p);
             }
             *(@ctype_out@ *) out = gm;
             continue;
-- 
2.43.0


From 00b29ecb8f293db423738432c5dfb688941ab097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:20 +0000
Subject: [PATCH 37/40] fix: pmean, pmeanw: don't underflow or overflow, and
 ignore elements with weight 0 in the scale

---
 src/means/means_gufunc.c.src | 54 ++++++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/means/means_gufunc.c.src b/src/means/means_gufunc.c.src
index c4efbf6..5756548 100644
--- a/src/means/means_gufunc.c.src
+++ b/src/means/means_gufunc.c.src
@@ -319,6 +319,32 @@ static void hmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
     }
 }
 
+//
+// Compute pow(x/scale, p) for x >= 0 and 0 < scale < inf.
+//
+static @ctype_out@ scaled_pow_@typename@(@ctype_in@ x, @ctype_out@ scale, @ctype_out@ p)
+{
+    @ctype_out@ r = x/scale;
+    if (isnormal(r) || x == 0 || isinf(x)) {
+        return pow@powsuffix@(r, p);
+    }
+    // x/scale underflowed or overflowed, but the result might not.
+    return exp@funcsuffix@(p*(log@funcsuffix@(x) - log@funcsuffix@(scale)));
+}
+
+//
+// Compute scale*pow(m, 1/p) for 0 < scale < inf.
+//
+static @ctype_out@ scaled_root_@typename@(@ctype_out@ m, @ctype_out@ scale, @ctype_out@ p)
+{
+    @ctype_out@ r = pow@powsuffix@(m, 1/p);
+    if (isnormal(r) || m == 0) {
+        return scale*r;
+    }
+    // pow(m, 1/p) underflowed or overflowed, but the result might not.
+    return exp@funcsuffix@(log@funcsuffix@(scale) + log@funcsuffix@(m)/p);
+}
+
 static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
                                   const npy_intp* steps, void* data)
 {
@@ -445,9 +471,9 @@ static void pmean_@typename@_loop(char **args, const npy_intp *dimensions,
         @ctype_out@ scale = (p > 0) ? xmax : xmin;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner += inner_step) {
             @ctype_in@ x = *(@ctype_in@ *)inner;
-            sum += pow@powsuffix@(x/scale, p);
+            sum += scaled_pow_@typename@(x, scale, p);
         }
-        *(@ctype_out@ *) out = scale*pow@powsuffix@(sum/dimensions[1], 1/p);
+        *(@ctype_out@ *) out = scaled_root_@typename@(sum/dimensions[1], scale, p);
     }
 }
 
@@ -588,16 +614,32 @@ static void pmeanw_@typename@_loop(char **args, const npy_intp *dimensions,
         sumw = 0;
         inner0 = in0;
         inner1 = in1;
-        @ctype_out@ scale = (p > 0) ? xmax : xmin;
-        sumw = 0;
+        // The extreme value among the elements with nonzero weight.
+        @ctype_out@ scale = 0;
+        for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
+                                                     inner1 += inner1_step) {
+            @ctype_in@ x = *(@ctype_in@ *) inner0;
+            @ctype_in@ w = *(@ctype_in@ *) inner1;
+            if (w != 0 && (scale == 0 || ((p > 0) ? x > scale : x < scale))) {
+                scale = x;
+            }
+        }
+        if (scale == 0) {
+            // All the weights are 0, or 0 is the only value with a nonzero weight.
+            scale = 1;
+        }
+        inner0 = in0;
+        inner1 = in1;
         for (npy_intp k = 0; k < dimensions[1]; ++k, inner0 += inner0_step,
                                                      inner1 += inner1_step) {
             @ctype_in@ x = *(@ctype_in@ *) inner0;
             @ctype_in@ w = *(@ctype_in@ *) inner1;
             sumw += w;
-            sum += w*pow@powsuffix@(x/scale, p);
+            if (w != 0) {
+                sum += w*scaled_pow_@typename@(x, scale, p);
+            }
         }
-        *(@ctype_out@ *) out = scale*pow@powsuffix@(sum/sumw, 1/p);
+        *(@ctype_out@ *) out = scaled_root_@typename@(sum/sumw, scale, p);
     }
 }
 
-- 
2.43.0


From aa216285e25567077d10e4ec136f418b81bec0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:28 +0000
Subject: [PATCH 38/40] fix: vnorm: don't overflow or lose elements when the
 order is a small fraction

---
 src/vnorm/vnorm_gufunc.h | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/vnorm/vnorm_gufunc.h b/src/vnorm/vnorm_gufunc.h
index 7ebc8d8..ae342f0 100644
--- a/src/vnorm/vnorm_gufunc.h
+++ b/src/vnorm/vnorm_gufunc.h
@@ -8,6 +8,7 @@
 #include <complex>
 #include <cmath>
 #include <algorithm>
+#include <limits>
 #include <type_traits>
 
 #define NPY_NO_DEPRECATED_API NPY_API_VERSION
@@ -54,6 +55,36 @@ my_abs(npy_clongdouble z)
 }
 
 
+//
+// Compute pow(x/scale, p) for 0 <= x <= scale < inf, scale > 0 and p > 0.
+//
+template<typename U>
+static inline U scaled_pow(U x, U scale, U p)
+{
+    U r = x/scale;
+    if (r >= std::numeric_limits<U>::min() || x == 0) {
+        return std::pow(r, p);
+    }
+    // x/scale underflowed, but the result might not.
+    return std::exp(p*(std::log(x) - std::log(scale)));
+}
+
+
+//
+// Compute scale*pow(m, 1/p) for 0 < scale < inf, m >= 1 and p > 0.
+//
+template<typename U>
+static inline U scaled_root(U m, U scale, U p)
+{
+    U r = std::pow(m, 1/p);
+    if (std::isinf(r)) {
+        // pow(m, 1/p) overflowed, but the result might not.
+        return std::exp(std::log(scale) + std::log(m)/p);
+    }
+    return scale*r;
+}
+
+
 //
 // `vnorm_core_calc`, the C++ core function
 // for the gufunc `vnorm` with signature '(n),()->()'
@@ -101,14 +132,14 @@ static void vnorm_core_calc(
                 sum += abs_x;
             }
             else {
-                sum += pow(abs_x/maxabsx, order);
+                sum += scaled_pow(abs_x, maxabsx, order);
             }
         }
         if (isinf(order) | (order == 1)) {
             p_out[0] = sum;
         }
         else {
-            p_out[0] = maxabsx * pow(sum, 1/order);
+            p_out[0] = scaled_root(sum, maxabsx, order);
         }
     }
 }
-- 
2.43.0


From dfe37913f336055695269199437e1ce3a09ab2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:28 +0000
Subject: [PATCH 39/40] fix: linear_interp1d: don't overflow or underflow in
 the slope when it is used in the general loop

---
 src/linear_interp1d/linear_interp1d_gufunc.c.src | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linear_interp1d/linear_interp1d_gufunc.c.src b/src/linear_interp1d/linear_interp1d_gufunc.c.src
index f25205b..2518be0 100644
--- a/src/linear_interp1d/linear_interp1d_gufunc.c.src
+++ b/src/linear_interp1d/linear_interp1d_gufunc.c.src
@@ -149,8 +149,8 @@ static void linear_interp1d_@typename@_loop(char **args, const npy_intp *dimensi
         else {
             @ctype@ xpk_next = *((@ctype@ *) (pxp + (k + 1)*xp_stride));
             @ctype@ fpk_next = *((@ctype@ *) (pfp + (k + 1)*fp_stride));
-            @ctype@ slope = (fpk_next - fpk)/(xpk_next - xpk);
-            *((@ctype@ *) pout) = fpk + slope * (x - xpk);
+            @ctype@ r = (x - xpk) / (xpk_next - xpk);
+            *((@ctype@ *) pout) = fpk + r*(fpk_next - fpk);
         }
     }
 }
-- 
2.43.0


From f40334c1cfd75df0027e6b808387438f9abb2c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:55 +0000
Subject: [PATCH 40/40] fix: linearstep, smoothstep3, smoothstep5: return nan
 for x=nan also when a equals b

---
 src/step/step.h | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/step/step.h b/src/step/step.h
index 90f90a7..d7a717c 100644
--- a/src/step/step.h
+++ b/src/step/step.h
@@ -33,9 +33,6 @@ T linearstep(T x, T a, T b, T fa, T fb)
     if (x >= b) {
         return fb;
     }
-    if (a == b) {
-        return (fa + fb) / 2;
-    }
     T u = (x - a)/(b - a);
     return fa*(1 - u) + fb*u;
 }
@@ -60,9 +57,6 @@ T smoothstep3(T x, T a, T b, T fa, T fb)
     if (x >= b) {
         return fb;
     }
-    if (a == b) {
-        return (fa + fb) / 2;
-    }
     T u = (x - a)/(b - a);
     return fa + (fb - fa)*u*u*(3 - 2*u);
 }
@@ -112,9 +106,6 @@ T smoothstep5(T x, T a, T b, T fa, T fb)
     if (x >= b) {
         return fb;
     }
-    if (a == b) {
-        return (fa + fb) / 2;
-    }
     T u = (x - a)/(b - a);
     return fa + (fb - fa)*u*u*u*(u*(6*u - 15) + 10);
 }
-- 
2.43.0

