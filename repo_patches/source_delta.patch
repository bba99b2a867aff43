From dd1f7a378de43e00b4824dd75819074391b8efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 1/8] fix: step length in nnls inner loop has the wrong sign

---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 114881f..0df5a18 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -100,7 +100,7 @@ def nnls(
             t = sq <= 0
             if not xp.any(t):
                 break
-            alpha = -xp.min(xq[t] / (xq[t] - sq[t]))
+            alpha = xp.min(xq[t] / (xq[t] - sq[t]))
             x = xpx.at(x)[q].add(alpha * (sq - xq))
             q = xpx.at(q)[x <= 0].set(False)
         x = xpx.at(x)[q].set(sq)
-- 
2.43.0


From ea713c9c37b4eac68294b4170a09e3b7f6f39d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 2/8] fix: nearcorr fails for stacks with more than one leading
 axis

---
 glass/algorithm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/algorithm.py b/glass/algorithm.py
index 0df5a18..51018e4 100644
--- a/glass/algorithm.py
+++ b/glass/algorithm.py
@@ -195,7 +195,7 @@ def nearcorr(
     y = xp.reshape(a, (-1, n, n))
 
     # initial correction is zero
-    ds = xp.zeros_like(a)
+    ds = xp.zeros_like(y)
 
     # store identity matrix
     diag = xp.eye(n)
-- 
2.43.0


From f55bd1e20295cfa37891117d1d8161842082c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 3/8] fix: redshifts_from_bins mixes up positions for
 multidimensional labels

---
 glass/galaxies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 612810c..5aee542 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -173,7 +173,7 @@ def redshifts_from_bins(
 
     # argsort the runs of redshifts into their intended positions
     # argsort 1: sort bin_index into runs of the same bin
-    bin_index = xp.argsort(bin_index)
+    bin_index = xp.argsort(xp.reshape(bin_index, (-1,)))
     # argsort 2: invert the sort
     bin_index = xp.argsort(bin_index)
     # apply to runs of redshifts
-- 
2.43.0


From 9e28cedb9344098389240aa49bdb7db7157a5d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 4/8] fix: distribute fails for empty input with strict array
 backends

---
 glass/shells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/shells.py b/glass/shells.py
index cea16ac..c581828 100644
--- a/glass/shells.py
+++ b/glass/shells.py
@@ -1100,7 +1100,7 @@ def distribute(
 
     # return empty array if nothing was sampled
     if not out:
-        return xp.empty(shape, dtype=int)
+        return xp.empty(shape, dtype=xp.int64)
 
     # return output in input shape
     return xp.reshape(xp.concat(out), shape)
-- 
2.43.0


From 490d6d3326cde235785694f4b8acfa73a9bda1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:46 +0000
Subject: [PATCH 5/8] fix: trapezoid without sample points fails for strict
 array backends

---
 glass/_array_api_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/_array_api_utils.py b/glass/_array_api_utils.py
index fa2b7eb..506f379 100644
--- a/glass/_array_api_utils.py
+++ b/glass/_array_api_utils.py
@@ -143,7 +143,7 @@ class xp_additions:  # noqa: N801
         # If any other backend use default
         dxp = default_xp(xp.__name__)
         y_dxp = dxp.asarray(y, copy=True)
-        x_dxp = dxp.asarray(x, copy=True)
+        x_dxp = dxp.asarray(x, copy=True) if x is not None else None
         result_dxp = dxp.trapezoid(y_dxp, x_dxp, dx=dx, axis=axis)
         return xp.asarray(result_dxp, copy=True)
 
-- 
2.43.0


From 4c4430724a8ae3ddac456ba08bbbe2b5ff07886a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 6/8] fix: cut spectra shorter than lmax in discretized_cls
 without slicing out of bounds

---
 glass/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/glass/fields.py b/glass/fields.py
index 677a84a..1afb518 100644
--- a/glass/fields.py
+++ b/glass/fields.py
@@ -292,7 +292,7 @@ def discretized_cls(
     for cl in cls:
         if cl.shape[0] > 0:
             if lmax is not None:
-                cl = cl[: lmax + 1]  # noqa: PLW2901
+                cl = cl[: min(lmax + 1, cl.shape[0])]  # noqa: PLW2901
             if nside is not None:
                 n = min(cl.shape[0], pw.shape[0])  # ty: ignore[unresolved-attribute]
                 cl = cl[:n] * pw[:n] ** 2  # noqa: PLW2901
-- 
2.43.0


From 952b177c13af0309f3ec8336dd4bf2fe0ab29bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:29 +0000
Subject: [PATCH 7/8] fix: check the shape of each bound of gaussian_phz on its
 own

A lower or upper bound of the wrong shape was accepted when the other one
was a scalar or had another number of dimensions.
---
 glass/galaxies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/glass/galaxies.py b/glass/galaxies.py
index 5aee542..633d660 100644
--- a/glass/galaxies.py
+++ b/glass/galaxies.py
@@ -433,8 +433,9 @@ def gaussian_phz(  # noqa: PLR0913
     zphot = xp.asarray(xrng.normal(z_arr, sigma))
 
     # Check for valid user input
-    if (lower_arr.ndim == upper_arr.ndim != 0) and not (
-        lower_arr.shape == upper_arr.shape == zphot.shape
+    if any(
+        bound.ndim != 0 and bound.shape != zphot.shape
+        for bound in (lower_arr, upper_arr)
     ):
         msg = "lower and upper must best scalars or have the same shape as z"
         raise ValueError(msg)
-- 
2.43.0


From 742c35362852a92c090bb060a82ab1ae37ab776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 8/8] fix: resample_shapes with zero or tiny varg

The scale factor was computed as 0/0 for varg=0 and lost all digits for tiny
varg; use the stable form of the root.
---
 glass/shapes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/glass/shapes.py b/glass/shapes.py
index bab7dcb..a7d8d14 100644
--- a/glass/shapes.py
+++ b/glass/shapes.py
@@ -411,13 +411,13 @@ def resample_shapes(
         if varg > vare:
             raise ValueError("varg too large for epsilon")
         eve4 = xp.mean(r**4)
-        r *= xp.sqrt(
-            (
-                xp.sqrt(((1 - 2 * varg) * vare) ** 2 + 4 * varg * eve4 * (vare - varg))
-                - (1 - 2 * varg) * vare
-            )
-            / (2 * varg * eve4),
-        )
+        # root of the quadratic equation, without cancellation for small varg
+        b = (1 - 2 * varg) * vare
+        d = xp.sqrt(b**2 + 4 * varg * eve4 * (vare - varg))
+        if b > 0:
+            r *= xp.sqrt(2 * (vare - varg) / (d + b))
+        else:
+            r *= xp.sqrt((d - b) / (2 * varg * eve4))
 
     # assign random orientations to shapes
     return r * xp.exp(1j * xrng.uniform(0, 2 * xp.pi, size=r.shape))
-- 
2.43.0

