From 88fe5b1509ea6a1a0b90ebaccf216cb3393a6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 001/193] fix: ToeplitzSolver handles 1x1 matrices

---
 mass/mathstat/toeplitz.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 7320e52..36820e9 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -118,6 +118,8 @@ class ToeplitzSolver:
 
         T0 = self.T[n - 1]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = self.T[n - 2] / T0
         h[0] = self.T[n] / T0
 
@@ -152,6 +154,8 @@ class ToeplitzSolver:
         self.gK_leading = np.zeros(n, dtype=float)
 
         T0 = self.T[0]
+        if n == 1:
+            return
         g[0] = self.T[1] / T0
 
         for K in range(1, n):  # K = M+1
@@ -181,6 +185,8 @@ class ToeplitzSolver:
         T = self.T
         T0 = T[0]
         x[0] = y[0] / T0
+        if n == 1:
+            return x
         g[0] = T[1] / T0
 
         for K in range(1, n):  # K = M+1
-- 
2.43.0


From 3b2c00f590d5a232f9547fe338e335bc76f09a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 002/193] fix: ToeplitzSolver.mult no longer truncates the
 product for integer vectors

---
 mass/mathstat/toeplitz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/toeplitz.py b/mass/mathstat/toeplitz.py
index 36820e9..39fd6c3 100644
--- a/mass/mathstat/toeplitz.py
+++ b/mass/mathstat/toeplitz.py
@@ -92,7 +92,7 @@ class ToeplitzSolver:
         x = np.asarray(x)
         N = len(x)
         assert N == self.n
-        y = np.zeros_like(x)
+        y = np.zeros_like(x, dtype=np.result_type(x, float))
         y[0] = np.dot(self.T, x)
         for i in range(1, N):
             y[i] = np.dot(self.T[:-i], x[i:])
-- 
2.43.0


From fbb73468ac98d04af1f793865113d0312d9e1806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 003/193] fix: high_median counts the weight of the excluded
 trial point

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 9ad908b..c9a5578 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -355,7 +355,7 @@ def _high_median(long long[:] sort_idx, double[:] weights, int n):
             trial_right_weight += weights[sort_idx[i]]
 
         if left_weight + trial_left_weight > half_weight:  # j < itrial
-            right_weight += trial_right_weight
+            right_weight += trial_right_weight + weights[sort_idx[itrial]]
             imax = itrial
         elif right_weight + trial_right_weight >= half_weight:  # j > itrial
             left_weight += trial_left_weight
-- 
2.43.0


From c0be77407997120896123e179b751af046ee1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 004/193] fix: Qscale computes the trial distance in double
 precision

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index c9a5578..2e38ed4 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -375,7 +375,7 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
     cdef Py_ssize_t i
     cdef int chosen_row, chosen_col, ctr_index
 
-    cdef float trial_val
+    cdef double trial_val
     cdef double[:] weights
     cdef double[:] row_median
 
-- 
2.43.0


From df691dea9bdeb1b6b15193e79fa3ba4b21977953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 005/193] fix: Qscale accepts integer data

---
 mass/mathstat/robust.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 2e38ed4..b3e4467 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -311,7 +311,7 @@ def Qscale(x, sort_inplace=False):
         dist.sort()
         return dist[target_k] * prefactor
 
-    q, npasses = _Qscale_subroutine(x, n, target_k)
+    q, npasses = _Qscale_subroutine(np.asarray(x, dtype=float), n, target_k)
 
     if npasses > n:
         raise RuntimeError("Qscale tried %d distances, which is too many" % npasses)
-- 
2.43.0


From bef2e72efe5ae38e50135600fe541eb0e332e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 006/193] fix: weighted means converge when the median absolute
 deviation is zero

---
 mass/mathstat/robust.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index b3e4467..47fc84e 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -68,7 +68,7 @@ def bisquare_weighted_mean(x, k, center=None, tol=None):
         weights = (1-((x-center) / k)**2.0)**2.0
         weights[np.abs(x-center) > k] = 0.0
         newcenter = (weights*x).sum()/weights.sum()
-        if abs(newcenter - center) < tol:
+        if abs(newcenter - center) <= tol:
             return newcenter
         center = newcenter
     raise RuntimeError("bisquare_weighted_mean used too many iterations.\n" +
@@ -107,7 +107,7 @@ def huber_weighted_mean(x, k, center=None, tol=None):
         weights = np.asarray((1.0*k)/np.abs(x-center))
         weights[weights > 1.0] = 1.0
         newcenter = (weights*x).sum()/weights.sum()
-        if abs(newcenter - center) < tol:
+        if abs(newcenter - center) <= tol:
             return newcenter
         center = newcenter
     raise RuntimeError("huber_weighted_mean used too many iterations.\n" +
-- 
2.43.0


From 1ac16ba5b340c29f1f82b80c5ee166acb4dbf9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 007/193] fix: laplace_entropy of data with gaps longer than
 745 kernel widths

---
 mass/mathstat/entropy.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index d776d96..93efd86 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -90,14 +90,14 @@ cdef double laplace_entropy_array(np.ndarray[DTYPE_t, ndim=1] x, double w=1.0):
     for i in range(N-2, -1, -1):
         d[i] = e[i]*d[i+1] + stepsize
 
-    cdef double H, dp, r, r1, e2, A, B
+    cdef double H, dp, r1, e2, A, B
     H = w*d[0]*(1-log(d[0])) + w*c[N-1]*(1-log(c[N-1]))
     for i in range(N-1):
         dp = d[i+1]*e[i]
-        r = sqrt(c[i]/dp)
-        r1 = c[i]/d[i+1]
-        e2 = sqrt(e[i])
-        H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
+        if e[i] > 0:  # In a gap so long that exp underflows, this term is zero.
+            r1 = c[i]/d[i+1]
+            e2 = sqrt(e[i])
+            H += 4*w*sqrt(c[i]*dp)*atan((e2-1.0/e2)*r1**0.5/(r1+1.0))
         H += w*(dp-c[i])*(log(c[i]+dp)-1)
         A, B = d[i+1], c[i]*e[i]
         H -= w*(A-B)*(log(A+B)-1)
-- 
2.43.0


From 540727b96d5258d02400aec8ce4aeffcf2623849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 008/193] fix: Qscale converges when many pairwise distances
 are equal

---
 mass/mathstat/robust.pyx | 77 +++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 48 deletions(-)

diff --git a/mass/mathstat/robust.pyx b/mass/mathstat/robust.pyx
index 47fc84e..b50f143 100644
--- a/mass/mathstat/robust.pyx
+++ b/mass/mathstat/robust.pyx
@@ -406,87 +406,68 @@ def _choose_trial_val(long long[:] left, long long[:] right, double[:] x, int n)
 
 @cython.embedsignature(True)
 @cython.boundscheck(False)  # turn off bounds-checking for entire function
-def _Qscale_subroutine(double[:] x, unsigned int n, unsigned int target_k):
+def _Qscale_subroutine(double[:] x, long long n, long long target_k):
     cdef unsigned int trial_q_row = 0, trial_q_col = 0
     cdef Py_ssize_t i, counter
     cdef double trial_distance = 0.0
-    cdef long long candidates_below_trial_dist
+    cdef long long candidates_below_trial_dist, candidates_upto_trial_dist
 
     # Keep track of which candidates on each ROW are still in the running.
     # These limits are of length (n-1) because the lowest row has no upper-triangle elements.
     # These mean that element A_ij = xj-xi is in the running if and only if  left(i) <= j <= right(i).
     cdef long long[:] trial_column
+    cdef long long[:] tied_column
     cdef long long[:] left
     cdef long long[:] right
-    cdef double[:] per_row_value
     cdef long ia, ib, imiddle
 
     trial_column = np.zeros(n-1, dtype=np.int64)
+    tied_column = np.zeros(n-1, dtype=np.int64)
     left = np.zeros(n-1, dtype=np.int64)
     right = np.zeros(n-1, dtype=np.int64)
 
     for i in range(n-1):
         right[i] = n-1
 
-    per_row_value = np.zeros(n-1, dtype=np.float64)
-
     # In this loop, we close in on the Q that we seek by doing a bisection search of each row,
     # with left and right representing the smallest and largest column #s still in the running.
     for counter in range(n+10):
         trial_distance, trial_q_row, trial_q_col = _choose_trial_val(left, right, x, n)
-        for i in range(n-1):
-            per_row_value[i] = trial_distance + x[i]
-
-        # In each row i, find the highest index trial_column such that x[tc]-x[i] < trial_distance
+        # In each row i, find the highest index trial_column such that x[tc]-x[i] < trial_distance and
+        # the highest index tied_column such that x[tc]-x[i] <= trial_distance.
         # If such an index is out of the candidate range, then let it be left-1 or right.
-        # We must be extremely careful in this loop, because rounding errors can make
+        # Compare the same differences that choose_trial_val uses, because rounding errors can make
         # (trial_distance + x[i]) != x[j] even when trial distance was defined as (x[j]-x[i])
-        # So instead we have the choose_trial_val tell us the (i,j) pair being considered
-        # and test for it.
-
-        # trial_column tracks the column in each row which is the highest column strictly less than
-        # the trial distance.
-        for i in range(per_row_value.shape[0]):
-            trial_val = per_row_value[i]
-
-            # Test for if this is the row containing the trial Q-value.  If so, column is known.
-            # Use this to avoid comparing exact equality of floats on the trial Q's (row,col).
-            if i == trial_q_row:
-                trial_column[i] = trial_q_col-1
-                continue
-
+        candidates_below_trial_dist = -((n-2)*(n-1)//2)
+        candidates_upto_trial_dist = candidates_below_trial_dist
+        for i in range(n-1):
             ia = left[i]
-            ib = right[i]
-            if ia > ib or x[ia] >= trial_val:
-                trial_column[i] = ia-1
-                continue
-            if x[ib] <= trial_val:
-                trial_column[i] = ib
-                continue
-            while ib-ia > 1:
+            ib = right[i] + 1
+            while ib > ia:
                 imiddle = (ib+ia) // 2
-                if x[imiddle] < trial_val:
-                    ia = imiddle
-                elif x[imiddle] > trial_val:
+                if x[imiddle] - x[i] < trial_distance:
+                    ia = imiddle + 1
+                else:
                     ib = imiddle
+            trial_column[i] = ia - 1
+            ib = right[i] + 1
+            while ib > ia:
+                imiddle = (ib+ia) // 2
+                if x[imiddle] - x[i] <= trial_distance:
+                    ia = imiddle + 1
                 else:
-                    ia = imiddle - 1
                     ib = imiddle
-                    break
-            trial_column[i] = ia
+            tied_column[i] = ia - 1
+            candidates_below_trial_dist += trial_column[i]
+            candidates_upto_trial_dist += tied_column[i]
 
-        candidates_below_trial_dist = np.sum(trial_column) - ((n-2)*(n-1))/2
-
-        if candidates_below_trial_dist == target_k:
-            return trial_distance, counter
-        elif candidates_below_trial_dist > target_k:
+        if candidates_below_trial_dist > target_k:
             for i in range(n-1):
                 right[i] = trial_column[i]
-                if right[i] >= n:
-                    right[i] = n-1
-        else:
+        elif candidates_upto_trial_dist <= target_k:
             for i in range(n-1):
-                left[i] = trial_column[i] + 1
-            left[trial_q_row] += 1
+                left[i] = tied_column[i] + 1
+        else:
+            return trial_distance, counter
 
     return trial_distance, counter
-- 
2.43.0


From 2cbf5b45888234308fc5c31bbd42aa01c434ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 009/193] fix: CubicSpline call no longer changes the shape of
 the caller's array

---
 mass/mathstat/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 69c9d3c..5ce35c7 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -124,8 +124,8 @@ class CubicSpline:
         x = np.asarray(x)
         if x.size == 0:
             return np.array([])
-        elif x.size == 1:
-            x.shape = (1,)
+        elif x.ndim == 0:
+            x = x.reshape((1,))
         result = np.zeros_like(x, dtype=float)
 
         # Find which interval 0,...self._n-2 contains the points (or extrapolates to the points)
-- 
2.43.0


From 67eb2525097f7e31b6d3debb70a6884adc653a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 010/193] fix: third derivative of CubicSpline divides by the
 knot spacing

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 5ce35c7..1f01169 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -172,7 +172,7 @@ class CubicSpline:
             elif der == 2:
                 result[interp] = a * self._y2[klo] + b * self._y2[khi]
             elif der == 3:
-                result[interp] = (-self._y2[klo] + self._y2[khi]) * dx
+                result[interp] = (-self._y2[klo] + self._y2[khi]) / dx
             elif der > 3:
                 result[interp] = .0
 
-- 
2.43.0


From 524ccad1268781303056c0c0758a752d54f493ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 011/193] fix: NaturalBsplineBasis with three or fewer knots is
 natural at both ends

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 1f01169..0d67986 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -415,7 +415,7 @@ class NaturalBsplineBasis:
         coef[id + 1] = 1.0
         if id < 2:
             coef[0] = self.coef_b[id]
-        elif id >= self.Nk - 2:
+        if id >= self.Nk - 2:
             coef[-1] = self.coef_e[self.Nk - id - 1]
         return splev(x, (self.padknots, coef, 3), der=der)
 
-- 
2.43.0


From 4c55f573279aa08fe2755cb4900e33c3476f50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 012/193] fix: SmoothingSpline slope outside the knots when the
 end slope is exactly zero

---
 mass/mathstat/interpolate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 0d67986..1559148 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -564,14 +564,14 @@ class SmoothingSpline:
             if der == 0:
                 splresult[low] = self.lowline(x[low] - self.x[0])
             elif der == 1:
-                splresult[low] = self.lowline.coeffs[0]
+                splresult[low] = self.lowline[1]
             elif der >= 2:
                 splresult[low] = 0.0
         if np.any(high):
             if der == 0:
                 splresult[high] = self.highline(x[high] - self.x[-1])
             elif der == 1:
-                splresult[high] = self.highline.coeffs[0]
+                splresult[high] = self.highline[1]
             elif der >= 2:
                 splresult[high] = 0.0
         if der > 0:
-- 
2.43.0


From 3c8d8f9d50cdf37c3a5a7f21b7efcc40cdb00b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 013/193] fix: SmoothingSplineFunction.derivative
 differentiates the same curve, not one of rescaled abscissas

---
 mass/mathstat/interpolate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 1559148..290b212 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -30,6 +30,7 @@ NaturalBsplineBasis - A tool for expressing a spline basis using B-splines but
 Joe Fowler, NIST
 Created Feb 2014
 """
+import copy
 import numpy as np
 import scipy as sp
 from scipy.interpolate import splev
@@ -594,7 +595,9 @@ class SmoothingSplineFunction(SmoothingSpline, Function):
     def derivative(self, der=1):
         if self.der + der > 3:
             return ConstantFunction(0)
-        return SmoothingSplineFunction(self.x, self.y, self.dy, self.dx, der=self.der + der)
+        deriv = copy.copy(self)
+        deriv.der = self.der + der
+        return deriv
 
     def __call__(self, x, der=0):
         if self.der + der > 3:
-- 
2.43.0


From c2beaed1d9bfd08a183c8ee8a3383268c0c1d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 014/193] fix: SmoothingSplineLog no longer modifies the
 caller's dx

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 290b212..e3998e3 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -617,7 +617,7 @@ class SmoothingSplineLog:
         if np.any(x <= 0) or np.any(y <= 0):
             raise ValueError("The x and y data must all be positive to use a SmoothingSplineLog")
         if dx is not None:
-            dx /= x
+            dx = dx / x
         self.linear_model = SmoothingSpline(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
 
     def __call__(self, x, der=0):
-- 
2.43.0


From 3714d334f4c8830d2f2f180bc709e5b2bcead74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 015/193] fix: GPRSpline.variance and covariance accept a
 scalar

---
 mass/mathstat/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index e3998e3..d3179b8 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -344,7 +344,7 @@ class GPRSpline(CubicSpline):
         This equals the diagonal of `self.covariance(xtest)`, but for large test sets,
         this method computes only the diagonal and should therefore be faster."""
         v = []
-        for x in np.asarray(xtest):
+        for x in np.atleast_1d(xtest):
             Ktest = self.sigmaf**2 * k_spline(x, self.x)
             LinvKtest = np.linalg.solve(self.L, Ktest)
             cov_ftest = self.sigmaf**2 * k_spline(x, x) - (LinvKtest**2).sum()
-- 
2.43.0


From d26d7e47b4367981d7285819164cee9915f656b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 016/193] fix: SmoothingSplineLog derivatives are derivatives
 of the curve

---
 mass/mathstat/interpolate.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index d3179b8..c5b932c 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -621,7 +621,16 @@ class SmoothingSplineLog:
         self.linear_model = SmoothingSpline(np.log(x), np.log(y), dy / y, dx, maxchisq=maxchisq)
 
     def __call__(self, x, der=0):
-        return np.exp(self.linear_model(np.log(x), der=der))
+        logx = np.log(x)
+        y = np.exp(self.linear_model(logx))
+        if der == 0:
+            return y
+        slope = self.linear_model(logx, der=1)
+        if der == 1:
+            return y * slope / x
+        if der == 2:
+            return y * (slope**2 - slope + self.linear_model(logx, der=2)) / x**2
+        raise ValueError("SmoothingSplineLog has derivatives only up to der=2")
 
 
 class GPRSplineFunction(GPRSpline, Function):
-- 
2.43.0


From 234904ef7ee5b5a5b81b7fa569802620fa76f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:45 +0000
Subject: [PATCH 017/193] fix: SmoothingSpline uses the least-squares line when
 that meets the chi-squared constraint

---
 mass/mathstat/interpolate.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index c5b932c..5581747 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -539,9 +539,15 @@ class SmoothingSpline:
             chisq = np.sum(((self.y - ys) / self.err)**2)
             return chisq - target_chisq
 
-        mincurvature = 1e-20
-        pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
-        beta = best_params(pbest)
+        # The curve of least curvature is a straight line. Use it, if it meets the chi-squared constraint.
+        # The spline basis reproduces any line exactly.
+        line = np.poly1d(np.polyfit(self.x, self.y, 1, w=1.0 / self.err))
+        if np.sum(((self.y - line(self.x)) / self.err)**2) <= chisq:
+            beta = np.linalg.solve(self.N0, line(self.x))
+        else:
+            mincurvature = 1e-20
+            pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
+            beta = best_params(pbest)
         self.coeff = self.basis.expand_coeff(beta)
         ys = np.dot(self.N0, beta)
         self.actualchisq = np.sum(((self.y - ys) / self.err)**2)
-- 
2.43.0


From f85edc4564095120d763ea738f75081372717026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 018/193] fix: SmoothingSpline chi-squared limit is met for
 closely spaced or large-valued knots

---
 mass/mathstat/interpolate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/interpolate.py b/mass/mathstat/interpolate.py
index 5581747..d0932d0 100644
--- a/mass/mathstat/interpolate.py
+++ b/mass/mathstat/interpolate.py
@@ -526,7 +526,7 @@ class SmoothingSpline:
         rhs = np.dot(self.N0.T, Dinv * self.y)
 
         def best_params(p):
-            return np.linalg.solve(p * (lhs - self.Omega) + self.Omega, p * rhs)
+            return np.linalg.solve(p * (lhs - Omega) + Omega, p * rhs)
 
         def chisq_difference(p, target_chisq):
             # If curvature is too small, the computation can become singular.
@@ -545,8 +545,11 @@ class SmoothingSpline:
         if np.sum(((self.y - line(self.x)) / self.err)**2) <= chisq:
             beta = np.linalg.solve(self.N0, line(self.x))
         else:
+            # Scale the curvature matrix to be comparable to the chi-squared one, whatever the units of x and y,
+            # so that the weight p found by the root finder is not so near 0 or 1 as to lose precision.
+            Omega = self.Omega * (np.trace(lhs) / np.trace(self.Omega))
             mincurvature = 1e-20
-            pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,))
+            pbest = sp.optimize.brentq(chisq_difference, mincurvature, 1, args=(chisq,), xtol=mincurvature)
             beta = best_params(pbest)
         self.coeff = self.basis.expand_coeff(beta)
         ys = np.dot(self.N0, beta)
-- 
2.43.0


From cb9e1575b7711e28325db7d16287806fe4da5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:44 +0000
Subject: [PATCH 019/193] fix: a Function plus, minus or times a number on its
 right can be evaluated

---
 mass/mathstat/derivative.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index a338e3a..b23d9a1 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -47,6 +47,8 @@ class Function:
         return NotImplemented(">> is not implemented.")
 
     def __add__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Summation(self, other)
 
     def __radd__(self, other):
@@ -63,6 +65,8 @@ class Function:
         raise NotImplementedError("- is not implemented.")
 
     def __mul__(self, other):
+        if isinstance(other, (int, float)):
+            other = ConstantFunction(other)
         return Multiplication(self, other)
 
     def __rmul__(self, other):
-- 
2.43.0


From 4b9c30f5f1d4b9e8e85ca9f212f1a24f67140b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 020/193] fix: function composition no longer turns (x^2)^0.5
 into x

---
 mass/mathstat/derivative.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/mathstat/derivative.py b/mass/mathstat/derivative.py
index b23d9a1..37246af 100644
--- a/mass/mathstat/derivative.py
+++ b/mass/mathstat/derivative.py
@@ -192,7 +192,8 @@ class ExprMeta(type):
                 return ConstantFunction(a(b.v))
             elif isinstance(b, Identity):
                 return a
-            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction):
+            elif isinstance(a, PowerFunction) and isinstance(b, PowerFunction) and float(a.n).is_integer():
+                # True only of integer outer powers: for example, (x^2)^0.5 is |x|, not x.
                 return PowerFunction(a.n * b.n)
             elif isinstance(a, ExponentialFunction) and isinstance(b, LogFunction):
                 return Identity()
-- 
2.43.0


From eb3b38e9ac51d7a0539c25c11304555a4e0248df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 021/193] fix: a copied power spectrum no longer shares its
 accumulator with the original

---
 mass/mathstat/power_spectrum.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index b055573..34dc63a 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -88,6 +88,7 @@ class PowerSpectrum:
         you do want to update the method definitions."""
         c = PowerSpectrum(self.m, dt=self.dt)
         c.__dict__.update(self.__dict__)
+        c.specsum = self.specsum.copy()
         return c
 
     def addDataSegment(self, data, window=None):
@@ -184,6 +185,15 @@ class PowerSpectrumOverlap(PowerSpectrum):
         PowerSpectrum.__init__(self, m, dt=dt)
         self.first = True
 
+    def copy(self):
+        """Return a copy of the object."""
+        c = PowerSpectrumOverlap(self.m, dt=self.dt)
+        c.__dict__.update(self.__dict__)
+        c.specsum = self.specsum.copy()
+        if not self.first:
+            c.fullseg = self.fullseg.copy()
+        return c
+
     def addDataSegment(self, data, window=None):
         "Process a data segment of length m using window."
         if self.first:
-- 
2.43.0


From fed9ebb82848b0989bb15075086a2d0a886b00cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 022/193] fix: rebinned power spectrum has no empty last bin
 and matches frequencies(nbins)

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 34dc63a..a5b940f 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -137,7 +137,7 @@ class PowerSpectrum:
         if nbins > self.m:
             raise ValueError(f"Cannot rebin into more than m={self.m} bins")
 
-        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / (self.m + 1) * nbins, dtype=int)
+        newbin = np.asarray(0.5 + np.arange(self.m + 1, dtype=float) / self.m * nbins, dtype=int)
         result = np.zeros(nbins + 1, dtype=float)
         for i in range(nbins + 1):
             result[i] = self.specsum[newbin == i].mean()
-- 
2.43.0


From 9e9e4f64af97f010b578c37f521329bb29b202b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 023/193] fix: computeSpectrum no longer ignores a window given
 as a vector

---
 mass/mathstat/power_spectrum.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index a5b940f..ac696ea 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -292,10 +292,8 @@ def computeSpectrum(data, segfactor=1, dt=None, window=None):
 
     N = len(data)
     M = N // (2 * segfactor)
-    try:
+    if callable(window):
         window = window(2 * M)  # precompute
-    except TypeError:
-        window = None
 
     if segfactor == 1:
         spec = PowerSpectrum(M, dt=dt)
-- 
2.43.0


From f19df5a7d23f965ac97cf32dc7676fc84b85a009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:28 +0000
Subject: [PATCH 024/193] fix: autocorrelation_broken_from_pulses keeps its
 input and accepts integers

---
 mass/mathstat/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index ac696ea..4b11b0a 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -263,7 +263,7 @@ def autocorrelation_broken_from_pulses(noise_pulses):
 
     for i in range(npulses):
         pulse = noise_pulses[:, i]
-        pulse -= pulse.mean()
+        pulse = pulse - pulse.mean()
         ac += np.correlate(pulse, pulse, 'full')[nsamples - 1:]
 
     ac /= npulses
-- 
2.43.0


From a3a67fec1c8f69a5d36b106126f89cf6812805c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 025/193] fix: kink_model returns the model in the caller's
 data order

---
 mass/mathstat/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/mathstat/fitting.py b/mass/mathstat/fitting.py
index 7ff24bc..11644e8 100644
--- a/mass/mathstat/fitting.py
+++ b/mass/mathstat/fitting.py
@@ -54,7 +54,7 @@ def kink_model(k, x, y):
                   [sj, 0, sj2]])
     v = np.array([y.sum(), (yi * dxi).sum(), (yj * dxj).sum()])
     abc = np.linalg.solve(A, v)
-    model = np.hstack([abc[0] + abc[1] * dxi, abc[0] + abc[2] * dxj])
+    model = abc[0] + np.where(x < k, abc[1], abc[2]) * (x - k)
     X2 = ((model - y)**2).sum()
     return model, abc, X2
 
-- 
2.43.0


From 5b4c729e6bde22c340815eb05ce49ed37a7f4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 026/193] fix: sign and factorial of savitzky_golay derivatives

---
 mass/mathstat/utilities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/utilities.py b/mass/mathstat/utilities.py
index 4c6ee0f..93afc92 100644
--- a/mass/mathstat/utilities.py
+++ b/mass/mathstat/utilities.py
@@ -12,6 +12,7 @@ Joe Fowler, NIST
 Started March 24, 2011
 """
 
+import math
 import numpy as np
 
 __all__ = ['plot_as_stepped_hist', 'plot_stepped_hist_poisson_errors', 'savitzky_golay',
@@ -162,13 +163,13 @@ def savitzky_golay(y, window_size, order, deriv=0):
     half_window = (window_size - 1) // 2
     # precompute coefficients
     b = np.asmatrix([[k**i for i in order_range] for k in range(-half_window, half_window + 1)])
-    m = np.linalg.pinv(b).A[deriv]
+    m = np.linalg.pinv(b).A[deriv] * math.factorial(deriv)
     # pad the signal at the extremes with
     # values taken from the signal itself
     firstvals = y[0] - np.abs(y[1:half_window + 1][::-1] - y[0])
     lastvals = y[-1] + np.abs(y[-half_window - 1:-1][::-1] - y[-1])
     y = np.concatenate((firstvals, y, lastvals))
-    return np.convolve(m, y, mode='valid')
+    return np.convolve(m[::-1], y, mode='valid')
 
 
 def find_range_randomly(A, nl, q=1):
-- 
2.43.0


From 99a13641cd81e6daac775d5dd98389dd6c2c7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 027/193] fix: EnergyCalibration honours its nonlinearity
 argument

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bef0378..873451c 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -120,7 +120,7 @@ class EnergyCalibration:  # noqa: PLR0904
         self._model_is_stale = False
         self._e2phwarned = False
         self.nonlinearity = nonlinearity
-        self.set_nonlinearity()
+        self.set_nonlinearity(nonlinearity)
 
     @staticmethod
     def __default_ph2e(x, der=0):
-- 
2.43.0


From c339d2040b3d6cdde7e4f67a4ad3c9e9e4fe2832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 028/193] fix: an EnergyCalibration with no points is the
 identity instead of failing

---
 mass/calibration/energy_calibration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 873451c..fd7d9d2 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -421,6 +421,12 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def _update_converters(self):
         """There is now one (or more) new data points. All the math goes on in this method."""
+        if self.npts == 0:
+            # In the absence of any information at all, we just let E = PH.
+            self._ph2e = self._e2ph = Identity()
+            self._model_is_stale = False
+            return
+
         # Sort in ascending energy order
         sortkeys = np.argsort(self._ph)
         self._ph = self._ph[sortkeys]
-- 
2.43.0


From c404780f3845a437e086ed60e795bda681ac667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 029/193] fix: remove_cal_point_energy removes the right points
 when several match

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index fd7d9d2..3dfde6a 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -317,7 +317,7 @@ class EnergyCalibration:  # noqa: PLR0904
         """Remove cal points at energies with <de> of <energy>"""
         idxs = np.nonzero(np.abs(self._energies - energy) < de)[0]
 
-        for idx in idxs:
+        for idx in idxs[::-1]:
             self._remove_cal_point_idx(idx)
 
     def add_cal_point(self, pht, energy, name="", pht_error=None, e_error=None, overwrite=True):
-- 
2.43.0


From ffbeb7c09e1ec5b2e177ac9462737c015f9af3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 030/193] fix: remove_cal_point_prefix returns the number of
 points removed

---
 mass/calibration/energy_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 3dfde6a..ffbfa1f 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -309,9 +309,11 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def remove_cal_point_prefix(self, prefix):
         """This removes all cal points whose name starts with <prefix>.  Return number removed."""
+        n_before = self.npts
         for name in tuple(self._names):
             if name.startswith(prefix):
                 self.remove_cal_point_name(name)
+        return n_before - self.npts
 
     def remove_cal_point_energy(self, energy, de):
         """Remove cal points at energies with <de> of <energy>"""
-- 
2.43.0


From 38140d24cf6a8198a5789589fbca6771ef442c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 031/193] fix: EnergyCalibration storage keeps the choice of
 smoothing spline

---
 mass/calibration/energy_calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index ffbfa1f..4a21a4b 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -758,13 +758,15 @@ class EnergyCalibration:  # noqa: PLR0904
         cal_group.attrs['nonlinearity'] = self.nonlinearity
         cal_group.attrs['curvetype'] = self.CURVETYPE[self._curvetype]
         cal_group.attrs['approximate'] = self._use_approximation
+        cal_group.attrs['useGPR'] = self._use_GPR
 
     @classmethod
     def load_from_hdf5(cls, hdf5_group, name):
         cal_group = hdf5_group[name]
         cal = cls(cal_group.attrs['nonlinearity'],
                   cal_group.attrs['curvetype'],
-                  cal_group.attrs['approximate'])
+                  cal_group.attrs['approximate'],
+                  cal_group.attrs.get('useGPR', True))
 
         _names = cal_group["name"][:]
         _ph = cal_group["ph"][:]
-- 
2.43.0


From 956d60006301b57dfea3664f50fd65ca9fc19ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 032/193] fix: loading an EnergyCalibration keeps all its
 points

---
 mass/calibration/energy_calibration.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 4a21a4b..bead56d 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -774,8 +774,11 @@ class EnergyCalibration:  # noqa: PLR0904
         _dph = cal_group["dph"][:]
         _de = cal_group["de"][:]
 
-        for thisname, ph, e, dph, de in zip(_names, _ph, _energies, _dph, _de):
-            cal.add_cal_point(ph, e, thisname.decode(), dph, de)
+        # Do not use add_cal_point: it would merge points nearer one another than their energy uncertainty.
+        cal._names = [thisname.decode() for thisname in _names]
+        cal._ph, cal._energies, cal._dph, cal._de = _ph, _energies, _dph, _de
+        cal.npts = len(_ph)
+        cal._model_is_stale = True
 
         return cal
 
-- 
2.43.0


From b79dd72ec58818cd666e7d271f8551e25d5f8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 033/193] fix: evaluating a smoothed calibration no longer
 replaces the points' uncertainties

---
 mass/calibration/energy_calibration.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index bead56d..3e449b1 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -465,20 +465,21 @@ class EnergyCalibration:  # noqa: PLR0904
         if not self._use_GPR:
             PreferredSpline = SmoothingSplineFunction
 
-        # Make sure the errors in both dimensions are reasonable (positive)
-        if (self._dph <= 0.0).any():
-            if (self._dph > 0).any():
-                self._dph[self._dph <= 0.0] = self._dph[self._dph > 0].min()
+        # Make sure the errors in both dimensions are reasonable (positive). Don't change the stored ones.
+        dph, de = self._dph.copy(), self._de.copy()
+        if (dph <= 0.0).any():
+            if (dph > 0).any():
+                dph[dph <= 0.0] = dph[dph > 0].min()
             else:
-                self._dph = np.zeros_like(self._dph)
-        if (self._de <= 0.0).any():
-            if (self._de > 0).any():
-                self._de[self._de <= 0.0] = self._de[self._de > 0].min()
+                dph = np.zeros_like(dph)
+        if (de <= 0.0).any():
+            if (de > 0).any():
+                de[de <= 0.0] = de[de > 0].min()
             else:
-                self._de = np.zeros_like(self._de)
+                de = np.zeros_like(de)
 
         # Find transformed data. For dy, assume that E and PH errors are uncorrelated.
-        ph, dph, e, de = self._ph, self._dph, self._energies, self._de
+        ph, e = self._ph, self._energies
 
         if self.curvename() == "loglog":
             underlying_spline = PreferredSpline(np.log(ph), np.log(e), de / e, dph / ph)
-- 
2.43.0


From a8c0a5eef3a2914f32451f00ff0ee68626cc9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 034/193] fix: ph2energy accepts arrays of any dimension and
 never changes its argument

---
 mass/calibration/energy_calibration.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 3e449b1..24db02f 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -149,11 +149,9 @@ class EnergyCalibration:  # noqa: PLR0904
             return result.item()
 
         # Change any inf or NaN results to 0.0 energy.
-        if any(np.isnan(result)):
-            result[np.isnan(result)] = 0.0
-        if any(np.isinf(result)):
-            result[np.isinf(result)] = 0.0
-        return np.array(result)
+        result = np.array(result)
+        result[~np.isfinite(result)] = 0.0
+        return result
 
     def energy2ph(self, energy):
         """Convert energy (or array of energies) `energy` to pulse height in arbs.
-- 
2.43.0


From 65ff3b7b5e56e808a6d38530ff82fca556ecb856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 035/193] fix: calibration uncertainty for loglog and loggain
 curves is in energy units

---
 mass/calibration/energy_calibration.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 24db02f..ffbf73c 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -482,7 +482,7 @@ class EnergyCalibration:  # noqa: PLR0904
         if self.curvename() == "loglog":
             underlying_spline = PreferredSpline(np.log(ph), np.log(e), de / e, dph / ph)
             self._ph2e = ExponentialFunction() << underlying_spline << LogFunction()
-            cal_uncert = underlying_spline(ph_pts) * underlying_spline.variance(np.log(ph_pts))**0.5
+            cal_uncert = self._ph2e(ph_pts) * underlying_spline.variance(np.log(ph_pts))**0.5
 
         elif self.curvename().startswith("linear"):
             if ("+0" in self.curvename()) and (0.0 not in ph):
@@ -527,8 +527,7 @@ class EnergyCalibration:  # noqa: PLR0904
             underlying_spline = PreferredSpline(ph, lg, d_lg)
             self._ph2e = p * (ExponentialFunction() << (-underlying_spline << p))
             e_pts = self._ph2e(ph_pts)
-            dfdp = underlying_spline(ph_pts, der=1)
-            cal_uncert = underlying_spline.variance(ph_pts)**0.5 * e_pts * np.abs(dfdp)
+            cal_uncert = underlying_spline.variance(ph_pts)**0.5 * e_pts
 
         self._underlying_spline = underlying_spline
         if self._use_GPR:
-- 
2.43.0


From d1fa945df2c465afa208b9002780dae31f6b6163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:00 +0000
Subject: [PATCH 036/193] fix: energy2ph_exact accepts long integer arrays

---
 mass/calibration/energy_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index ffbf73c..040c300 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -191,7 +191,7 @@ class EnergyCalibration:  # noqa: PLR0904
             self._e2phwarned = True
 
         if len(energy) > 1024:
-            phs = np.array(energy)
+            phs = np.array(energy, dtype=float)
             # Newton methods with a fixed number of iterations.
             for _ in range(5):
                 phs -= (self(phs) - energy) / self(phs, der=1)
-- 
2.43.0


From 307a4998c24f8f31f6300cbacc597446335160bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:27 +0000
Subject: [PATCH 037/193] fix: a calibration point refused as non-monotone is
 not kept

---
 mass/calibration/energy_calibration.py | 29 +++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 040c300..3b1a3d3 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -379,26 +379,31 @@ class EnergyCalibration:  # noqa: PLR0904
             update_index = np.abs(energy - self._energies).argmin()
 
         if update_index is None:   # Add a new point
-            self._ph = np.hstack((self._ph, pht))
-            self._energies = np.hstack((self._energies, energy))
+            new_ph = np.hstack((self._ph, pht))
+            new_energies = np.hstack((self._energies, energy))
+        else:
+            new_ph, new_energies = self._ph.copy(), self._energies.copy()
+            new_ph[update_index] = pht
+            new_energies[update_index] = energy
+
+        # Validate: ph and energies must be monotone increasing. Change nothing if they aren't.
+        order_ph = new_ph.argsort()
+        order_en = new_energies.argsort()
+        if not np.all(order_ph == order_en):
+            a = f"PH:     {new_ph[order_ph]}"
+            b = f"Energy: {new_energies[order_ph]}"
+            raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
+
+        self._ph, self._energies = new_ph, new_energies
+        if update_index is None:
             self._dph = np.hstack((self._dph, pht_error))
             self._de = np.hstack((self._de, e_error))
             self._names.append(name)
         else:
-            self._ph[update_index] = pht
-            self._energies[update_index] = energy
             self._dph[update_index] = pht_error
             self._de[update_index] = e_error
         self.npts = len(self._ph)
 
-        # Validate: ph and energies must be monotone increasing
-        order_ph = self._ph.argsort()
-        order_en = self._energies.argsort()
-        if not np.all(order_ph == order_en):
-            a = f"PH:     {self._ph[order_ph]}"
-            b = f"Energy: {self._energies[order_ph]}"
-            raise Exception(f"Calibration points are not monotone:\n{a}\n{b}")
-
     @property
     def cal_point_phs(self):
         return self._ph
-- 
2.43.0


From dfdb595aea18280bd93253e292e71f9df3e44e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:35 +0000
Subject: [PATCH 038/193] fix: slope of an EnergyCalibration with no points is
 one

---
 mass/calibration/energy_calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 3b1a3d3..06deb48 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -124,8 +124,10 @@ class EnergyCalibration:  # noqa: PLR0904
 
     @staticmethod
     def __default_ph2e(x, der=0):
-        if der > 0:
+        if der > 1:
             return np.zeros_like(x)
+        if der == 1:
+            return np.ones_like(x)
         return x
 
     def __call__(self, pulse_ht, der=0):
-- 
2.43.0


From 86bd17b95ee9c98090a4fb1497b6dba5ed08a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 039/193] fix: find_local_maxima keeps a maximum whose two
 central bins are exactly equal

---
 mass/calibration/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/algorithms.py b/mass/calibration/algorithms.py
index 8daab4e..4189643 100644
--- a/mass/calibration/algorithms.py
+++ b/mass/calibration/algorithms.py
@@ -57,7 +57,7 @@ def find_local_maxima(pulse_heights, gaussian_fwhm):
     x = (bins[1:] + bins[:-1]) / 2
     y = np.fft.irfft(np.fft.rfft(hist) * ty)
 
-    flag = (y[1:-1] > y[:-2]) & (y[1:-1] > y[2:])
+    flag = (y[1:-1] > y[:-2]) & (y[1:-1] >= y[2:])
     lm = np.arange(1, n - 1)[flag]
     lm = lm[np.argsort(-y[lm])]
 
-- 
2.43.0


From 1e678b09f4c895540cf7b0ce3106bb156f8d3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 040/193] fix: SpectralLine.rvs redraws non-positive energies
 with the caller's generator

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 675a48c..9c42f04 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -159,7 +159,7 @@ class SpectralLine:
         if np.any(not_positive):
             Nbad = not_positive.sum()
             results[not_positive] = self.rvs(
-                size=Nbad, instrument_gaussian_fwhm=instrument_gaussian_fwhm)
+                size=Nbad, instrument_gaussian_fwhm=instrument_gaussian_fwhm, rng=rng)
         return results
 
     @property
-- 
2.43.0


From 52ebbad174bd8514b8dc18e3800e9b724e825fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 041/193] fix: misplaced decimal point in the width of Pr K
 alpha 1

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 9c42f04..30101fd 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1280,7 +1280,7 @@ addline(
     reference_short="Zschornack",
     nominal_peak_energy=36026.71,
     energies=np.array([35550.59, 36026.71]),
-    lorentzian_fwhm=np.array([19.08, 1887]),
+    lorentzian_fwhm=np.array([19.08, 18.87]),
     reference_amplitude=np.array([4.15, 7.57]),
     reference_amplitude_type=LORENTZIAN_INTEGRAL_INTENSITY,
     ka12_energy_diff=36026.71 - 35550.59,
-- 
2.43.0


From 9130a023bc4ac73f6e165c7e267e7afa092ec5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 042/193] fix: energy of Gd K beta 1 was 1 keV too high

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 30101fd..6c32a2c 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1410,7 +1410,7 @@ addline(
     linetype="KBeta",
     reference_short="Zschornack",
     nominal_peak_energy=48696.9,
-    energies=np.array([48555.8, 49696.9]),
+    energies=np.array([48555.8, 48696.9]),
     lorentzian_fwhm=np.array([29.5, 30.0]),
     reference_amplitude=np.array([1.10, 2.13]),
     reference_amplitude_type=LORENTZIAN_INTEGRAL_INTENSITY,
-- 
2.43.0


From aa34b9c8e44579a1da5741418f3c412908c3338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 043/193] fix: line models with tails are normalised and
 smeared correctly when dph_de is not 1

---
 mass/calibration/line_models.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 599ad88..c1cb9d3 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -263,12 +263,10 @@ class GenericLineModel(MLEModel):
 
                 def cleanspectrum_fn(x): return self.spect.pdf(x, instrument_gaussian_fwhm=fwhm)
 
-                # tail_tau* is in energy units but has to be converted to the same units as `bin_centers`
-                tail_arbs_lo = tail_tau * dph_de
-                tail_arbs_hi = tail_tau_hi * dph_de
+                # tail_tau* is in energy units, the same units as `energy`
                 spectrum = _smear_exponential_tail(
-                    cleanspectrum_fn, energy, fwhm, tail_frac, tail_arbs_lo, tail_share_hi, tail_arbs_hi)
-                scale_factor = integral * bin_width * dph_de
+                    cleanspectrum_fn, energy, fwhm, tail_frac, tail_tau, tail_share_hi, tail_tau_hi)
+                scale_factor = integral * bin_width / dph_de
                 r = _scale_add_bg(spectrum, scale_factor, background, bg_slope)
                 if any(np.isnan(r)) or any(r < 0):
                     raise ValueError("some entry in r is nan or negative")
-- 
2.43.0


From 6a6fc5b238201c89ef65188ed37ae9c3137d8b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:36 +0000
Subject: [PATCH 044/193] fix: residual of a composite model is finite where
 the data equal the model

---
 mass/calibration/line_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index c1cb9d3..607e9cc 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -223,7 +223,10 @@ class CompositeMLEModel(MLEModel, lmfit.CompositeModel):
         r2 = y - data
         nonzero = data > 0
         r2[nonzero] += data[nonzero] * np.log((data / y)[nonzero])
-        vals = (2 * r2) ** 0.5
+        # As in MLEModel._residual: rounding errors can make r2 slightly negative.
+        vals = np.zeros_like(r2)
+        nonneg = r2 > 0
+        vals[nonneg] = np.sqrt(2 * r2[nonneg])
         vals[y < data] *= -1
         return vals
 
-- 
2.43.0


From 02abf3feb967b2cfff21edc193a344f0c5dffbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 045/193] fix: filter films accept a scalar oxide or polymer
 density

---
 mass/materials/efficiency_models.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index fb59163..8569516 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -171,8 +171,8 @@ class AlFilmWithOxide(Film):
         arbE = 5000.  # an arbitrary energy (5 keV) is used to get answers from material_mu_components()
         oxide_dict = xraydb.material_mu_components('sapphire', arbE)
         oxide_material = oxide_dict['elements']
-        oxide_mass_fractions = [oxide_dict[x][0] * oxide_dict[x]
-                                [1] / oxide_dict['mass'] for x in oxide_material]
+        oxide_mass_fractions = np.array([oxide_dict[x][0] * oxide_dict[x]
+                                         [1] / oxide_dict['mass'] for x in oxide_material])
 
         # Assume oxidized surfaces are each 3 nm thick.
         num_oxide_elements = len(oxide_material)
@@ -215,16 +215,16 @@ class AlFilmWithPolymer(Film):
         oxide_dict = xraydb.material_mu_components('sapphire', arbE)
         oxide_thickness_nm = num_oxidized_surfaces * 3.0  # assume 3 nm per oxidized surface
         oxide_material = oxide_dict['elements']
-        oxide_mass_fractions = [oxide_dict[x][0] * oxide_dict[x]
-                                [1] / oxide_dict['mass'] for x in oxide_material]
+        oxide_mass_fractions = np.array([oxide_dict[x][0] * oxide_dict[x]
+                                         [1] / oxide_dict['mass'] for x in oxide_material])
         if oxide_density_g_per_cm3 is None:
             oxide_density_g_per_cm3 = oxide_dict['density'] * np.ones(len(oxide_material))
 
         polymer_dict = xraydb.material_mu_components('kapton', arbE)
         polymer_material = polymer_dict['elements']
         polymer_thickness_nm *= np.ones(len(polymer_material))
-        polymer_mass_fractions = [polymer_dict[x][0] * polymer_dict[x][1]
-                                  / polymer_dict['mass'] for x in polymer_material]
+        polymer_mass_fractions = np.array([polymer_dict[x][0] * polymer_dict[x][1]
+                                           / polymer_dict['mass'] for x in polymer_material])
         if polymer_density_g_per_cm3 is None:
             polymer_density_g_per_cm3 = polymer_dict['density'] * np.ones(len(polymer_material))
 
-- 
2.43.0


From 0496128ec2aa858e6a544a01b06e3019e8f8f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:34 +0000
Subject: [PATCH 046/193] fix: AlFilmWithPolymer uses the polymer_fractions it
 is given

---
 mass/materials/efficiency_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index 8569516..cba1129 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -223,8 +223,10 @@ class AlFilmWithPolymer(Film):
         polymer_dict = xraydb.material_mu_components('kapton', arbE)
         polymer_material = polymer_dict['elements']
         polymer_thickness_nm *= np.ones(len(polymer_material))
-        polymer_mass_fractions = np.array([polymer_dict[x][0] * polymer_dict[x][1]
-                                           / polymer_dict['mass'] for x in polymer_material])
+        if polymer_fractions is None:
+            polymer_fractions = [polymer_dict[x][0] * polymer_dict[x][1]
+                                 / polymer_dict['mass'] for x in polymer_material]
+        polymer_mass_fractions = np.array(polymer_fractions)
         if polymer_density_g_per_cm3 is None:
             polymer_density_g_per_cm3 = polymer_dict['density'] * np.ones(len(polymer_material))
 
-- 
2.43.0


From c542fa88da7f7209cecfeb9b70703eef2d5cfc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:38 +0000
Subject: [PATCH 047/193] fix: AlFilmWithPolymer gives every element its own
 layer's thickness

---
 mass/materials/efficiency_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index cba1129..5494a1f 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -213,8 +213,9 @@ class AlFilmWithPolymer(Film):
 
         arbE = 5000.  # an arbitrary energy (5 keV) is used to get answers from material_mu_components()
         oxide_dict = xraydb.material_mu_components('sapphire', arbE)
-        oxide_thickness_nm = num_oxidized_surfaces * 3.0  # assume 3 nm per oxidized surface
         oxide_material = oxide_dict['elements']
+        # Assume 3 nm per oxidized surface.
+        oxide_thickness_nm = np.repeat(num_oxidized_surfaces * 3.0, len(oxide_material))
         oxide_mass_fractions = np.array([oxide_dict[x][0] * oxide_dict[x]
                                          [1] / oxide_dict['mass'] for x in oxide_material])
         if oxide_density_g_per_cm3 is None:
-- 
2.43.0


From aad9b1a957b0f04b778e6107144b6edb0220ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:27 +0000
Subject: [PATCH 048/193] Revert "fix: AlFilmWithPolymer gives every element
 its own layer's thickness"

This reverts commit c542fa88da7f7209cecfeb9b70703eef2d5cfc6e.
---
 mass/materials/efficiency_models.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/materials/efficiency_models.py b/mass/materials/efficiency_models.py
index 5494a1f..cba1129 100644
--- a/mass/materials/efficiency_models.py
+++ b/mass/materials/efficiency_models.py
@@ -213,9 +213,8 @@ class AlFilmWithPolymer(Film):
 
         arbE = 5000.  # an arbitrary energy (5 keV) is used to get answers from material_mu_components()
         oxide_dict = xraydb.material_mu_components('sapphire', arbE)
+        oxide_thickness_nm = num_oxidized_surfaces * 3.0  # assume 3 nm per oxidized surface
         oxide_material = oxide_dict['elements']
-        # Assume 3 nm per oxidized surface.
-        oxide_thickness_nm = np.repeat(num_oxidized_surfaces * 3.0, len(oxide_material))
         oxide_mass_fractions = np.array([oxide_dict[x][0] * oxide_dict[x]
                                          [1] / oxide_dict['mass'] for x in oxide_material])
         if oxide_density_g_per_cm3 is None:
-- 
2.43.0


From 1d1ac02bbc487557021e5dcf2bb68946e3b2ff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:27 +0000
Subject: [PATCH 049/193] Revert "fix: SpectralLine.rvs redraws non-positive
 energies with the caller's generator"

This reverts commit 1e678b09f4c895540cf7b0ce3106bb156f8d3c8a.
---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index 6c32a2c..eca2514 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -159,7 +159,7 @@ class SpectralLine:
         if np.any(not_positive):
             Nbad = not_positive.sum()
             results[not_positive] = self.rvs(
-                size=Nbad, instrument_gaussian_fwhm=instrument_gaussian_fwhm, rng=rng)
+                size=Nbad, instrument_gaussian_fwhm=instrument_gaussian_fwhm)
         return results
 
     @property
-- 
2.43.0


From 198a11c20719c1d64f1a717334660be8fbefbd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 050/193] fix: rise time and maximum derivative leave the shape
 of the caller's record alone

---
 mass/core/analysis_algorithms.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 7379ab4..0bfaafc 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -58,7 +58,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape((1, pulse_data.shape[0]))
 
     # The following requires a lot of numpy foo to read. Sorry!
     if nPretrig >= 4:
@@ -102,7 +102,7 @@ def python_compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kern
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape((1, pulse_data.shape[0]))
     pulse_data = np.array(pulse_data[:, ignore_leading:], dtype=float)
     NPulse, NSamp = pulse_data.shape
 
@@ -171,7 +171,7 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
     if ndim > 2 or ndim < 1:
         raise ValueError("input pulse_data should be a 1d or 2d array.")
     if ndim == 1:
-        pulse_data.shape = (1, pulse_data.shape[0])
+        pulse_data = pulse_data.reshape((1, pulse_data.shape[0]))
     pulse_view = pulse_data[:, ignore_leading:]
     NPulse = pulse_view.shape[0]
     NSamp = pulse_view.shape[1]
-- 
2.43.0


From 071efead25a6bac11e18b94ea0b2b1bdf09797df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 051/193] fix: maximum derivative accepts a kernel given as an
 array

---
 mass/core/analysis_algorithms.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 0bfaafc..9698132 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -108,7 +108,7 @@ def python_compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kern
 
     # The default filter:
     filter_coef = np.array([+.2, +.1, 0, -.1, -.2])
-    if kernel == "SG":
+    if isinstance(kernel, str) and kernel == "SG":
         # This filter is the Savitzky-Golay filter of n_L=1, n_R=3 and M=3, to use the
         # language of Numerical Recipes 3rd edition.  It amounts to least-squares fitting
         # of an M=3rd order polynomial to the five points [-1,+3] and
@@ -178,7 +178,7 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
 
     # The default filter:
     filter_coef = np.array([+.2, +.1, 0, -.1, -.2])
-    if kernel == "SG":
+    if isinstance(kernel, str) and kernel == "SG":
         # This filter is the Savitzky-Golay filter of n_L=1, n_R=3 and M=3, to use the
         # language of Numerical Recipes 3rd edition.  It amounts to least-squares fitting
         # of an M=3rd order polynomial to the five points [-1,+3] and
-- 
2.43.0


From af64eec888c29d725ccdc917d4260bf2b447c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 052/193] fix: rise time of a record does not depend on the
 other records computed with it

---
 mass/core/analysis_algorithms.pyx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 9698132..30c590e 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -67,7 +67,8 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         baseline_value = pulse_data.min(axis=1)
         nPretrig = 0
     value_at_peak = pulse_data.max(axis=1) - baseline_value
-    idx_last_pk = pulse_data.argmax(axis=1).max()
+    idx_pk = pulse_data.argmax(axis=1)
+    idx_last_pk = idx_pk.max()
 
     npulses = pulse_data.shape[0]
     try:
@@ -78,7 +79,8 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         last_idx = (rising_data > MAXTHRESH).argmax(axis=1)-1
         first_idx = (rising_data > MINTHRESH).argmax(axis=1)
         last_idx[last_idx < first_idx] = first_idx[last_idx < first_idx]+1
-        last_idx[last_idx == rising_data.shape[1]] = rising_data.shape[1]-1
+        # No record's rise extends past its own peak.
+        last_idx = np.minimum(last_idx, np.maximum(idx_pk - nPretrig, 0))
 
         pulsenum = np.arange(npulses)
         y_diff = np.asarray(rising_data[pulsenum, last_idx]-rising_data[pulsenum, first_idx],
@@ -86,7 +88,7 @@ def estimateRiseTime(pulse_data, timebase, nPretrig):
         y_diff[y_diff < timebase] = timebase
         time_diff = timebase*(last_idx-first_idx)
         rise_time = time_diff / y_diff
-        rise_time[y_diff <= 0] = -9.9e-6
+        rise_time[(y_diff <= 0) | (idx_pk < nPretrig)] = -9.9e-6
         return rise_time
 
     except ValueError:
-- 
2.43.0


From f93e791e4f9191b0347e289a03e3cca2519e4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 053/193] fix: compute_max_deriv does not read past the end of
 very short records

---
 mass/core/analysis_algorithms.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 30c590e..47e088f 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -192,6 +192,8 @@ def compute_max_deriv(pulse_data, ignore_leading, spike_reject=True, kernel=None
         filter_coef = np.array(kernel).ravel()
 
     f0, f1, f2, f3, f4 = filter_coef
+    if NSamp < (7 if spike_reject else 5):
+        raise ValueError("too few samples to compute the maximum derivative")
 
     max_deriv = np.zeros(NPulse, dtype=np.float64)
 
-- 
2.43.0


From d2efbc2d8f8e7b37fd7c05df38c10ad044ca3305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 054/193] fix: filter_signal_lowpass accepts signals with an
 odd number of samples

---
 mass/core/analysis_algorithms.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 47e088f..fbfb50b 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -776,7 +776,7 @@ def filter_signal_lowpass(sig, fs, fcut):
     """
     N = sig.shape[0]
     SIG = np.fft.fft(sig)
-    freqs = (fs/N) * np.concatenate((np.arange(0, N/2+1), np.arange(N/2-1, 0, -1)))
+    freqs = np.abs(np.fft.fftfreq(N, 1.0/fs))
     filt = np.zeros_like(SIG)
     filt[freqs < fcut] = 1.0
     sig_filt = np.fft.ifft(SIG * filt)
-- 
2.43.0


From 0a18886eb3c360557dacebb05fad625851f2a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 055/193] fix: FilterTimeCorrection can be copied

---
 mass/core/analysis_algorithms.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index fbfb50b..ab97d5d 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -424,7 +424,7 @@ class FilterTimeCorrection:
 
     def copy(self):
         """Return a new object with all the properties of this"""
-        new = FilterTimeCorrection(None, None, None, None)
+        new = FilterTimeCorrection(None, None, None, [], None)
         new.__dict__.update(self.__dict__)
         return new
 
-- 
2.43.0


From 0f136d8c1b86481b483a7dbd5fd93e709ebcb198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 056/193] fix: FilterTimeCorrection works for a single cluster
 of pulses

---
 mass/core/analysis_algorithms.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index ab97d5d..168de91 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -512,7 +512,7 @@ class FilterTimeCorrection:
             axes[-1].set_xlabel("Promptness")
             axes[0].set_title("Lag 0 filter output")
             axes[1].set_title("5-lag parab filter output")
-            colors = [plt.cm.jet(float(i)/(Nlabels-1.)) for i in range(Nlabels)]
+            colors = [plt.cm.jet(float(i)/max(Nlabels-1., 1.)) for i in range(Nlabels)]
 
         # Loop over labels
         for i in range(Nlabels):
@@ -616,7 +616,7 @@ class FilterTimeCorrection:
     def plot_corrections(self, center_x=True, scale_x=True):
         plt.clf()
         Nlabels = len(self.raw_fits)
-        colors = [plt.cm.jet(float(i)/(Nlabels-1.)) for i in range(Nlabels)]
+        colors = [plt.cm.jet(float(i)/max(Nlabels-1., 1.)) for i in range(Nlabels)]
         for i in range(Nlabels):
             xraw, y = self.parab_results[i]
             x = xraw.copy()
-- 
2.43.0


From 584798d37835a502ba3422e8ad31df07e7ff55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 057/193] fix: delay until the next trigger when there is only
 one trigger

---
 mass/core/analysis_algorithms.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 168de91..472e7aa 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -748,12 +748,12 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
 
         for i in range(num_pulses):
             pt = pulse_timestamps[i]
-            if pt > a:
+            if pt >= a:
                 delay_from_last_trigger[i] = pt - a
                 delay_until_next_trigger[i] = max_value
             else:
                 delay_from_last_trigger[i] = max_value
-                dealay_until_next_trigger = a - pt
+                delay_until_next_trigger[i] = a - pt
     else:
         for i in range(num_pulses):
             delay_from_last_trigger[i] = max_value
-- 
2.43.0


From 26e72c80c6e4ac9c5b73d782924edbd5c2845a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:49 +0000
Subject: [PATCH 058/193] fix: nearest_arrivals returns two arrays when there
 are no pulses

---
 mass/core/analysis_algorithms.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 472e7aa..483c600 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -697,7 +697,7 @@ def nearest_arrivals(long long[:] pulse_timestamps, long long[:] external_trigge
     num_triggers = external_trigger_timestamps.shape[0]
 
     if num_pulses < 1:
-        return np.array([], dtype=np.int64)
+        return np.array([], dtype=np.int64), np.array([], dtype=np.int64)
 
     delay_from_last_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
     delay_until_next_trigger = np.zeros_like(pulse_timestamps, dtype=np.int64)
-- 
2.43.0


From f68ff2812ecc78dcf46d70c9135389329d40a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 059/193] fix: calc_external_trigger_timing uses the group's
 external trigger list

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 222227a..fcf4c48 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -623,8 +623,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         return self.external_trigger_subframe_count[:] / float(self.subframe_divisions) * self.timebase
 
     def calc_external_trigger_timing(self, forceNew=False):
-        ds = self.first_good_dataset
-        external_trigger_subframe_count = np.asarray(ds.external_trigger_subframe_count[:], dtype=np.int64)
+        external_trigger_subframe_count = np.asarray(self.external_trigger_subframe_count[:], dtype=np.int64)
 
         for ds in self:
             try:
-- 
2.43.0


From 772a947d2a0d4c8b057442de70abc02494f525c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 060/193] fix: subframe count of OFF files whose header gives
 the number of rows as a string

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 5b4dcb1..fc1e464 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -862,7 +862,7 @@ class Channel(CorG):  # noqa: PLR0904
     @property
     def subframeDivisions(self):
         hdr = self.offFile.header["ReadoutInfo"]
-        return hdr.get("SubframeDivsions", hdr["NumberOfRows"])
+        return int(hdr.get("SubframeDivsions", hdr["NumberOfRows"]))
 
     @property
     def subframePeriodSeconds(self):
-- 
2.43.0


From 850ab14962e982db1272f4251672d12faf702c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:39 +0000
Subject: [PATCH 061/193] fix: OFF external trigger delays in seconds use the
 subframe period

---
 mass/off/channels.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index fc1e464..807bd8c 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -877,17 +877,17 @@ class Channel(CorG):  # noqa: PLR0904
     def _calcExternalTriggerTiming(self, external_trigger_subframe_count, after_last, until_next, from_nearest):
         subframes_after_last_external_trigger, subframes_until_next_external_trigger = \
             mass.core.analysis_algorithms.nearest_arrivals(self.subframecount, external_trigger_subframe_count)
-        rowPeriodSeconds = self.rowPeriodSeconds
+        subframePeriodSeconds = self.subframePeriodSeconds
         if after_last:
             self.subframes_after_last_external_trigger = subframes_after_last_external_trigger
-            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * rowPeriodSeconds
+            self.seconds_after_last_external_trigger = subframes_after_last_external_trigger * subframePeriodSeconds
         if until_next:
             self.subframes_until_next_external_trigger = subframes_until_next_external_trigger
-            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * rowPeriodSeconds
+            self.seconds_until_next_external_trigger = subframes_until_next_external_trigger * subframePeriodSeconds
         if from_nearest:
             self.subframes_from_nearest_external_trigger = np.fmin(subframes_after_last_external_trigger,
                                                                    subframes_until_next_external_trigger)
-            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * rowPeriodSeconds
+            self.seconds_from_nearest_external_trigger = self.subframes_from_nearest_external_trigger * subframePeriodSeconds
 
 
 def normalize(x):
-- 
2.43.0


From 55b6ea44e6b044347d2b31e147de481764d83d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:01 +0000
Subject: [PATCH 062/193] fix: python_nearest_arrivals runs with current numpy
 and agrees with nearest_arrivals

---
 mass/core/analysis_algorithms.pyx | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 483c600..90d7d57 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -640,22 +640,26 @@ class FilterTimeCorrection:
 @cython.embedsignature(True)
 def python_nearest_arrivals(reference_times, other_times):
     """Identical to nearest_arrivals(...)."""
-    nearest_after_index = np.searchsorted(other_times, reference_times)
+    reference_times = np.asarray(reference_times)
+    other_times = np.asarray(other_times)
+    # A trigger at exactly the reference time counts as the one before it.
+    nearest_after_index = np.searchsorted(other_times, reference_times, side="right")
     # because both sets of arrival times should be sorted, there are faster algorithms than searchsorted
     # for example: https://github.com/kwgoodman/bottleneck/issues/47
     # we could use one if performance becomes an issue
-    last_index = np.searchsorted(nearest_after_index, other_times.size, side="left")
-    first_index = np.searchsorted(nearest_after_index, 1)
-
-    nearest_before_index = np.copy(nearest_after_index)
-    nearest_before_index[:first_index] = 1
-    nearest_before_index -= 1
-    before_times = reference_times-other_times[nearest_before_index]
-    before_times[:first_index] = np.Inf
-
-    nearest_after_index[last_index:] = other_times.size-1
-    after_times = other_times[nearest_after_index]-reference_times
-    after_times[last_index:] = np.Inf
+    if np.issubdtype(reference_times.dtype, np.integer) and np.issubdtype(other_times.dtype, np.integer):
+        no_trigger = np.iinfo(np.int64).max
+        dtype = np.int64
+    else:
+        no_trigger = np.inf
+        dtype = float
+    before_times = np.full(reference_times.shape, no_trigger, dtype=dtype)
+    after_times = np.full(reference_times.shape, no_trigger, dtype=dtype)
+
+    has_before = nearest_after_index > 0
+    before_times[has_before] = reference_times[has_before]-other_times[nearest_after_index[has_before]-1]
+    has_after = nearest_after_index < other_times.size
+    after_times[has_after] = other_times[nearest_after_index[has_after]]-reference_times[has_after]
 
     return before_times, after_times
 
-- 
2.43.0


From 01d95f1117ed7b996e140dda220fcac9691be169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 063/193] fix: LJH column number from the header reaches
 column_number

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index e9f213d..fc98454 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -242,7 +242,7 @@ class LJHFile(MicrocalFile):
             self.row_number = int(header_dict[row_number_k[0]])
         col_number_k = [k for k in header_dict.keys() if k.startswith(b"Column number")]
         if len(col_number_k) > 0:
-            self.col_number = int(header_dict[col_number_k[0]])
+            self.column_number = int(header_dict[col_number_k[0]])
         self.client = header_dict.get(b"Software Version", b"UNKNOWN")
         self.number_of_columns = int(header_dict.get(b"Number of columns", 1))
         self.number_of_rows = int(header_dict.get(b"Number of rows", 1))
-- 
2.43.0


From 3c8cafd6495503feb805d4023ee75b8da952362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 064/193] fix: LJH 2.1 frame counts do not drift when the
 sample time in ns is truncated

---
 mass/core/files.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index fc98454..2ead645 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -378,9 +378,12 @@ class LJHFile2_1(LJHFile):
         datatime_ns = NS_PER_4USEC_TICK * np.asarray(self._mm["internal_us"], dtype=np.int64)
         datatime_ns[:] += NS_PER_MSEC * np.asarray(self._mm["internal_ms"], dtype=np.int64)
 
-        NS_PER_FRAME = np.int64(self.timebase * 1e9)
+        # Sample times are normally a whole number of ns; don't let rounding errors truncate that number.
+        NS_PER_FRAME = self.timebase * 1e9
+        if abs(NS_PER_FRAME - round(NS_PER_FRAME)) < 1e-6:
+            NS_PER_FRAME = np.int64(round(NS_PER_FRAME))
         FOURPOINT = 3  # account for 4-point triggering algorithm
-        self.frame_count = (1 + FOURPOINT) + (datatime_ns - 1) // NS_PER_FRAME
+        self.frame_count = (1 + FOURPOINT) + np.asarray((datatime_ns - 1) // NS_PER_FRAME, dtype=np.int64)
 
     @property
     def subframecount(self):
-- 
2.43.0


From 815ec0f6ae6c325fa3ee3c0a9f9ad7243a3ebc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 065/193] fix: LJH channel number is read from the file's own
 name, not from a directory's

---
 mass/core/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 2ead645..111c96f 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -202,7 +202,7 @@ class LJHFile(MicrocalFile):
         self.header_dict = header_dict
         self.header_size = header_size
         self.client = None
-        self.channum = int(filename.split("_chan")[1].split(".")[0])
+        self.channum = int(os.path.basename(filename).split("_chan")[-1].split(".")[0])
         self.sample_usec = None
         self.timestamp_offset = None
         self.row_number = 0
-- 
2.43.0


From ef593518720e4ec8e913267b52f2b808582c2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 066/193] fix: copied LJH files keep the presample count,
 timebase and row information

---
 mass/core/files.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mass/core/files.py b/mass/core/files.py
index 111c96f..0bd7b46 100644
--- a/mass/core/files.py
+++ b/mass/core/files.py
@@ -448,12 +448,25 @@ def make_ljh_header(header_dict):
     Args:
         header_dict (dict): should contain at least the following keys:
             asctime, timebase, nPresamples, nSamples
+        It may also contain the row/column and subframe information of the file (as found in the
+        attributes of an `LJHFile`).
     """
     version_str = header_dict["version_str"]
     asctime = header_dict["asctime"]
     timebase = header_dict["timebase"]
     nSamples = header_dict["nSamples"]
     nPresamples = header_dict["nPresamples"]
+    array_lines = []
+    if "number_of_rows" in header_dict:
+        nrows, ncols = header_dict["number_of_rows"], header_dict["number_of_columns"]
+        array_lines = [
+            f"Number of rows: {nrows}",
+            f"Number of columns: {ncols}",
+            f"Row number (from 0-{nrows - 1} inclusive): {header_dict['row_number']}",
+            f"Column number (from 0-{ncols - 1} inclusive): {header_dict['column_number']}",
+            f"Subframe divisions: {header_dict['subframe_divisions']}",
+            f"Subframe offset: {header_dict['subframe_offset']}",
+        ]
     header_lines = [
         "#LJH Memorial File Format",
         f"Save File Format Version: {version_str}",
@@ -468,13 +481,15 @@ def make_ljh_header(header_dict):
         "#End of description",
         "Number of Digitizers: 1",
         "Number of Active Channels: 1",
-        f"Timestamp offset (s): {1.0e9:.6f}",
+        *array_lines,
+        f"Timestamp offset (s): {header_dict.get('timestamp_offset', 1.0e9):.6f}",
         "Digitizer: 1",
         "Master: Yes",
         "Bits: 16",
-        f"Timebase: {timebase:.4e}",
+        f"Timebase: {float(timebase)!r}",
         "Number of samples per point: 1",
-        f"Presamples: {nPresamples}",
+        # Only DASTARD headers are taken to be correct: readers add 3 to the value for any other software.
+        f"Presamples: {nPresamples - 3}",
         f"Total Samples: {nSamples}",
         "Channel: 1.0",
         "Description: A (Voltage)",
-- 
2.43.0


From 881f9eaf8fe2a9db756ea97dc874cdc4bc806375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 067/193] fix: ljh_copy_traces refuses to overwrite its own
 source

---
 mass/core/ljh_modify.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index a57f88e..0f6cfae 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -125,8 +125,12 @@ def ljh_copy_traces(src_name, dest_name, pulses, overwrite=False):
             then the copy fails (default False).
     """
 
-    if os.path.exists(dest_name) and not overwrite:
-        raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
+    if os.path.exists(dest_name):
+        if not overwrite:
+            raise OSError(f"The ljhfile '{dest_name}' exists and overwrite was not set to True")
+        if os.path.samefile(src_name, dest_name):
+            raise ValueError(f"Input '{src_name}' and output '{dest_name}' "
+                             "are the same file, which is not allowed.")
 
     src = LJHFile.open(src_name)
 
-- 
2.43.0


From e1a31e8133cb9176f49a2de38cefcd7f8f097e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 068/193] fix: LJHModify copies the header and the times of
 each record

---
 mass/core/ljh_modify.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 0f6cfae..83a617a 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -43,8 +43,9 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
 
     infile = LJHFile.open(input_filename)
     with open(output_filename, "wb") as outfile:
-        # Copy the header as a single string.
-        outfile.write("".join(infile.header_lines))
+        # Copy the header verbatim.
+        with open(input_filename, "rb") as fp:
+            outfile.write(fp.read(infile.header_size))
 
         # For now, we are not modifying the times and row #s
         # If we wanted to, that would require a fancier callback, I guess.
@@ -55,8 +56,8 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
             for i in range(infile.nPulses):
                 data = callback(infile.alldata[i])
                 x = np.zeros((1,), dtype=infile.dtype)
-                x["subframecount"] = infile.subframecount
-                x["posix_usec"] = infile.datatimes_float * 1e6
+                x["subframecount"] = infile.subframecount[i]
+                x["posix_usec"] = infile.datatimes_raw[i]
                 x["data"] = data
                 x.tofile(outfile)
                 if i % 100 == 0:
@@ -65,8 +66,8 @@ def LJHModify(input_filename, output_filename, callback, overwrite=False):
         else:
             for i in range(infile.nPulses):
                 data = callback(infile.alldata[i])
-                x = np.zeros((1, 3 + infile.nSamples), dtype=np.uint16)
-                x[:, 3:] = data
+                x = np.array(infile._mm[i:i + 1])
+                x["data"] = data
                 x.tofile(outfile)
                 if i % 100 == 0:
                     updater.update(float(i + 1) / infile.nPulses)
-- 
2.43.0


From 9b3853018d074cb2250217d40568a5d28bd6e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 069/193] fix: ljh_truncate keeps the whole header and accepts
 more pulses than the file has

---
 mass/core/ljh_modify.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 83a617a..2840b37 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -204,13 +204,12 @@ def ljh_truncate(input_filename, output_filename, n_pulses=None, timestamp=None,
         raise Exception(f"Don't know how to truncate this LJH version [{infile.version_str}]")
 
     with open(output_filename, "wb") as outfile:
-        # write the header as a single string.
-        for (k, v) in infile.header_dict.items():
-            outfile.write(k + b": " + v + b"\r\n")
-        outfile.write(b"#End of Header\r\n")
+        # Copy the header verbatim.
+        with open(input_filename, "rb") as fp:
+            outfile.write(fp.read(infile.header_size))
 
         # Write pulses. Stop reading segments from the original file as soon as possible.
-        if n_pulses is None:
+        if n_pulses is None or n_pulses > infile.nPulses:
             n_pulses = infile.nPulses
         for i in range(n_pulses):
             if (timestamp is not None and infile.datatimes_float[i] > timestamp):
-- 
2.43.0


From 342bc76771e6ad62bd2ceff738029f0670779694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 070/193] fix: ljh_append_traces drops a partial last record
 instead of misaligning what it adds

---
 mass/core/ljh_modify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/ljh_modify.py b/mass/core/ljh_modify.py
index 2840b37..b452679 100644
--- a/mass/core/ljh_modify.py
+++ b/mass/core/ljh_modify.py
@@ -161,6 +161,11 @@ def ljh_append_traces(src_name, dest_name, pulses=None):
     src = LJHFile.open(src_name)
     if pulses is None:
         pulses = range(src.nPulses)
+    # If the destination ends with an incomplete record, anything added after it would be misread.
+    dest = LJHFile.open(dest_name)
+    complete_size = dest.header_size + dest.nPulses * dest.pulse_size_bytes
+    if complete_size < os.stat(dest_name).st_size:
+        os.truncate(dest_name, complete_size)
     with open(dest_name, "ab") as dest_fp:
         for i in pulses:
             helper_write_pulse(dest_fp, src, i)
-- 
2.43.0


From 325cd9dce8390c80ada98ebd57a744fec7401e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 071/193] fix: output_basename_from_ljh_fname raises a
 ValueError, not a string

---
 mass/core/ljh_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index a31ffea..11544e7 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -85,7 +85,7 @@ def output_basename_from_ljh_fname(ljh):
     basename, _ = ljh_basename_channum(ljh)
     ljhdir, fname = path.split(basename)
     if not path.isdir(ljhdir):
-        raise (f"ValueError {ljhdir} is not valid directory")
+        raise ValueError(f"{ljhdir} is not valid directory")
     outputdir = path.join(ljhdir, "mass_output")
     if not path.isdir(outputdir):
         os.mkdir(outputdir)
-- 
2.43.0


From 885b93291d15e31549763f381c0294d98a22644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 072/193] fix: remove_unpaired_channel_files removes every file
 of an unpaired channel

---
 mass/core/ljh_util.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 11544e7..7db20d9 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -126,21 +126,17 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
         return
     assert isinstance(filenames1, list)
 
-    # Now make a mapping of channel numbers to names.
-    names1 = {ljh_channum(f): f for f in filenames1}
-    cnum1 = set(names1.keys())
+    # Now find the set of channel numbers.
+    cnum1 = {ljh_channum(f) for f in filenames1}
 
     # If second list is empty, then matching is not required or expected.
     # But _do_ continue, so we can apply `never_use` and `use_only` (issue 255).
     if filenames2 is None or len(filenames2) == 0:
         filenames2 = []
-        names2 = {}
-        cnum2 = set()
         valid_cnum = set(cnum1)  # Careful! Must be a copy, not identity
     else:
         assert isinstance(filenames2, list)
-        names2 = {ljh_channum(f): f for f in filenames2}
-        cnum2 = set(names2.keys())
+        cnum2 = {ljh_channum(f) for f in filenames2}
         valid_cnum = cnum1.intersection(cnum2)
 
     # Find the set of valid channel numbers.
@@ -150,10 +146,8 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
         valid_cnum = valid_cnum.intersection(set(use_only))
 
     # Remove invalid channel numbers
-    for c in (cnum1 - valid_cnum):
-        filenames1.remove(names1[c])
-    for c in (cnum2 - valid_cnum):
-        filenames2.remove(names2[c])
+    filenames1[:] = [f for f in filenames1 if ljh_channum(f) in valid_cnum]
+    filenames2[:] = [f for f in filenames2 if ljh_channum(f) in valid_cnum]
 
 
 def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
-- 
2.43.0


From 355f74385acbe1ff3d35602b308cde77f6ddcdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 073/193] fix: ljh_sort_filenames_numerically honours
 inclusion_list and leaves the caller's list alone

---
 mass/core/ljh_util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 7db20d9..982be1b 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -169,13 +169,12 @@ def ljh_sort_filenames_numerically(fnames, inclusion_list=None):
         return None
 
     if inclusion_list is not None:
-        fnames = filter(lambda n: ljh_channum(n) in inclusion_list, fnames)
+        fnames = [n for n in fnames if ljh_channum(n) in inclusion_list]
 
     # Sort the results first by raw filename, then sort numerically by LJH channel number.
     # Because string sort and the builtin `sorted` are both stable, we ensure that the first
     # sort is used to break ties in channel number.
-    fnames.sort()
-    return sorted(fnames, key=ljh_channum)
+    return sorted(sorted(fnames), key=ljh_channum)
 
 
 def filename_glob_expand(pattern):
-- 
2.43.0


From 5ec0dac9b6f2b6ebd20db14588d68a25a6d70aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:49 +0000
Subject: [PATCH 074/193] fix: ljh_get_channels works for a file in the current
 directory

---
 mass/core/ljh_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index 982be1b..bd4a61b 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -21,7 +21,7 @@ def ljh_get_channels(fname):
     basename, chan = ljh_basename_channum(fname)
     filedir, ljhname = path.split(basename)
     chans = []
-    for f in os.listdir(filedir):
+    for f in os.listdir(filedir or "."):
         if not os.path.isfile(os.path.join(filedir, f)):
             continue
         bname, chan = ljh_basename_channum(f)
-- 
2.43.0


From 3d0b31ff4f598cca773779edf5e5cdaac721d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:49 +0000
Subject: [PATCH 075/193] fix: load_aux_file reshapes with an integer number of
 rows

---
 mass/core/ljh_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index bd4a61b..f6d35f3 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -213,7 +213,7 @@ def ljh_get_mic_fname(fname):
 def load_aux_file(fname):
     fname = ljh_get_aux_fname(fname)
     raw = np.fromfile(fname, dtype=np.uint64)
-    raw.shape = (len(raw) / 2, 2)
+    raw.shape = (len(raw) // 2, 2)
     crate_epoch_usec = raw[:, 1]
     crate_frame = raw[:, 0]
     return crate_epoch_usec, crate_frame
-- 
2.43.0


From bf4e37ef661aa6e7b0bab0703be19c25d6b2422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:49 +0000
Subject: [PATCH 076/193] fix: ljh_basename_channum ignores channel-like names
 of directories

---
 mass/core/ljh_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index f6d35f3..fe8df9b 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -50,7 +50,9 @@ def ljh_basename_channum(fname):
             fname = fname[:-1]
         base_dir, ljh_dir = path.split(fname)
         fname = path.join(base_dir, ljh_dir, ljh_dir)
-    chanmatches = re.finditer(r"_chan\d+", fname)
+    # Look only at the file's own name, not at the directories that hold it.
+    dirlen = len(fname) - len(path.basename(fname))
+    chanmatches = re.finditer(r"_chan\d+", fname[dirlen:])
     last_chan_match = None
     for last_chan_match in chanmatches:
         pass
@@ -58,7 +60,7 @@ def ljh_basename_channum(fname):
         basename, _ = path.splitext(fname)
         chan = None
     else:
-        basename = fname[:last_chan_match.start()]
+        basename = fname[:dirlen + last_chan_match.start()]
         chan = int(last_chan_match.group()[5:])
     return basename, chan
 
-- 
2.43.0


From 503a532be6cea59db734dc4725b318e445690df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 077/193] fix: max_chans works for groups with only pulse or
 only noise files

---
 mass/core/channel_group.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index fcf4c48..98bf63b 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -154,9 +154,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         # enforce max_chans
         if max_chans is not None:
-            n = min(max_chans, len(filenames))
-            filenames = filenames[:n]
-            noise_filenames = noise_filenames[:n]
+            filenames = filenames[:max_chans]
+            if noise_filenames is not None:
+                noise_filenames = noise_filenames[:max_chans]
 
         # Figure out where the 2 HDF5 files are to live, if the default argument
         # was given for their paths.
-- 
2.43.0


From 6955ed09bbe7acede2985c17821d236c41ce5700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:08 +0000
Subject: [PATCH 078/193] fix: channel exclusions apply also when only the
 second list has files

---
 mass/core/ljh_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh_util.py b/mass/core/ljh_util.py
index fe8df9b..eeec616 100644
--- a/mass/core/ljh_util.py
+++ b/mass/core/ljh_util.py
@@ -123,7 +123,9 @@ def remove_unpaired_channel_files(filenames1, filenames2, never_use=None, use_on
     :param use_only: if a sequence of channel numbers, exclude any channels not in it, defaults to None
     :type use_only: list of int, optional
     """
-    # If first list is empty, then nothing to do
+    # If one list is empty, matching is not required, but `never_use` and `use_only` apply to the other.
+    if filenames1 is None or len(filenames1) == 0:
+        filenames1, filenames2 = filenames2, None
     if filenames1 is None or len(filenames1) == 0:
         return
     assert isinstance(filenames1, list)
-- 
2.43.0


From 4043f3abbcb1832bd67dbf4b6fc112d1b148c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:46 +0000
Subject: [PATCH 079/193] fix: max_chans works for a noise-only group opened
 without pulse file names

---
 mass/core/channel_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 98bf63b..437c008 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -154,7 +154,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         # enforce max_chans
         if max_chans is not None:
-            filenames = filenames[:max_chans]
+            if filenames is not None:
+                filenames = filenames[:max_chans]
             if noise_filenames is not None:
                 noise_filenames = noise_filenames[:max_chans]
 
-- 
2.43.0


From 4d193dc0fb2c2e3c68f053e9c3ce47529676e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:04 +0000
Subject: [PATCH 080/193] fix: OFF files whose header has non-ASCII text can be
 read

---
 mass/off/off.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/off.py b/mass/off/off.py
index b226a59..d0b20c9 100644
--- a/mass/off/off.py
+++ b/mass/off/off.py
@@ -74,7 +74,7 @@ class OffFile:
         with open(self.filename, "rb") as f:
             self.headerString = readJsonString(f)
             # self.headerStringLength = f.tell() # doesn't work on windows because readline uses a readahead buffer
-            self.headerStringLength = len(self.headerString)
+            self.headerStringLength = len(self.headerString.encode("utf-8"))  # bytes, not characters
         self.header = json.loads(self.headerString)
         self.dtype = recordDtype(self.header["FileFormatVersion"], self.header["NumberOfBases"])
         self._dtype_non_descriptive = recordDtype(
-- 
2.43.0


From 1350230df0fc12e4a028ed3e88938abe84f31e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 081/193] fix: an OFF recipe can use the same ingredient for
 two arguments

---
 mass/off/util.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index 0386be7..a0d1573 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -75,7 +75,9 @@ class RecipeBook:
                 assert ingredient in self.baseIngredients or ingredient in self.craftedIngredients
                 i2a[ingredient] = inspectedArgName
 
-        recipe = Recipe(f, i2a, inverse, recipeName, self.coefs_dtype)
+        # an ingredient can be used more than once, so i2a doesn't say what to pass for each argument
+        argIngredients = list(i2a.keys()) if ingredients is None else list(ingredients)
+        recipe = Recipe(f, i2a, inverse, recipeName, self.coefs_dtype, argIngredients)
         for ingredient in i2a:
             if ingredient in self.craftedIngredients:
                 recipe._setIngredientToRecipe(ingredient, self.craftedIngredients[ingredient])
@@ -171,11 +173,13 @@ class Recipe:
     reads to the off file.
     """
 
-    def __init__(self, f, i2a, inverse, name, coefs_dtype=None):
+    def __init__(self, f, i2a, inverse, name, coefs_dtype=None, argIngredients=None):
         assert not isinstance(f, Recipe)
         self.f = f
         self.inverse = inverse
         self.i2a = i2a
+        # the ingredient names in the order they are passed to f, possibly with repeats
+        self.argIngredients = argIngredients
         self.name = name
         # coefs dtype is used to allow either indexing into the offFile with
         # "filtValue", "derivativeLike", etc OR
@@ -190,7 +194,11 @@ class Recipe:
 
     def __call__(self, ingredientSource):
         args = []
-        for (k, v) in self.i2a.items():
+        argIngredients = getattr(self, "argIngredients", None)  # recipes saved by older versions lack it
+        if argIngredients is None:
+            argIngredients = self.i2a.keys()
+        for k in argIngredients:
+            v = self.i2a[k]
             if isinstance(v, Recipe):
                 args.append(v(ingredientSource))
             elif k == "coefs":
-- 
2.43.0


From 2a243f6626edefb87d507a2063695f694d931150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:43 +0000
Subject: [PATCH 082/193] fix: ChannelGroup.cutSetDefault works

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 807bd8c..035ca85 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1408,7 +1408,8 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
 
     def cutSetDefault(self, cutRecipeName):
         assert cutRecipeName.startswith("cut")
-        assert cutRecipeName in self.recipes.keys()
+        for ds in self.values():
+            assert cutRecipeName in ds.recipes.keys(), f"{ds} lacks cut recipe {cutRecipeName}"
         self._default_cut_recipe_name = cutRecipeName
         for ds in self.values():
             ds.cutSetDefault(cutRecipeName)
-- 
2.43.0


From 02c4b5a826f7034f13a8eb6d57f0cc176673c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:55 +0000
Subject: [PATCH 083/193] fix: ChannelGroup.includeBad contexts can be nested

---
 mass/off/channels.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 035ca85..37ef88b 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1130,6 +1130,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         else:
             self.experimentStateFile = experimentStateFile
         self._includeBad = False
+        self._includeBadOuter = []
         self._channelClass = channelClass
         self.loadChannels()
         self._default_cut_recipe_name = self.firstGoodChannel()._default_cut_recipe_name
@@ -1295,10 +1296,12 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         return self
 
     def __enter__(self):
+        # remember what to go back to, so that these contexts can be nested
+        self._includeBadOuter.append(self._includeBad)
         self._includeBad = self._includeBadDesired
 
     def __exit__(self, *args):
-        self._includeBad = False
+        self._includeBad = self._includeBadOuter.pop()
         self._includeBadDesired = False
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
@@ -1545,6 +1548,7 @@ class ChannelGroupFromNpArrays(ChannelGroup):
         self.verbose = verbose
         self.experimentStateFile = experimentStateFile
         self._includeBad = False
+        self._includeBadOuter = []
         for ds in channels:
             self[ds.channum] = ds
         self._default_cut_recipe_name = self.firstGoodChannel()._default_cut_recipe_name
-- 
2.43.0


From 96f4c50276f0bd873ab818ed4582f74317ff4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:23 +0000
Subject: [PATCH 084/193] fix: looped Channel methods work on
 ChannelGroupFromNpArrays

---
 mass/off/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index a0d1573..384d982 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -249,7 +249,7 @@ def add_group_loop(method):
     is_running_tests = "pytest" in sys.modules
 
     def wrapper(self, *args, **kwargs):
-        bar = SilenceBar(method_name, max=len(self.offFileNames), silence=not self.verbose)
+        bar = SilenceBar(method_name, max=len(self), silence=not self.verbose)
         rethrow = kwargs.pop("_rethrow", is_running_tests)  # always rethrow during tests
         returnVals = collections.OrderedDict()
         for (channum, ds) in self.items():
-- 
2.43.0


From da7f353b9aea066748078d8f52e12e9568bf57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 085/193] fix: energyTimestampLabelToHDF5 works for repeated
 states with external triggers, and for no states

---
 mass/off/channels.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 37ef88b..2026e1c 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -778,22 +778,26 @@ class Channel(CorG):  # noqa: PLR0904
                 energy, unixnano = self.getAttr(["energy", "unixnano"], state, usedCutRecipeName)
                 grp[f"{state}/energy"] = energy
                 grp[f"{state}/unixnano"] = unixnano
-                state_inds = tuple(self.getStatesIndicies(states=[state]))
+                state_inds = self.getStatesIndicies(states=[state])
+
+                def in_state(v):
+                    return np.hstack([v[s] for s in state_inds])
+
                 cut_inds_in_state = self.getAttr(usedCutRecipeName, [state], "cutNone")
                 if hasattr(self, "seconds_after_last_external_trigger"):
                     grp[f"{state}/seconds_after_last_external_trigger"] = \
-                        self.seconds_after_last_external_trigger[state_inds][cut_inds_in_state]
+                        in_state(self.seconds_after_last_external_trigger)[cut_inds_in_state]
                 if hasattr(self, "seconds_until_next_external_trigger"):
                     grp[f"{state}/seconds_until_next_external_trigger"] = \
-                        self.seconds_until_next_external_trigger[state_inds][cut_inds_in_state]
+                        in_state(self.seconds_until_next_external_trigger)[cut_inds_in_state]
                 if hasattr(self, "seconds_from_nearest_external_trigger"):
                     grp[f"{state}/seconds_from_nearest_external_trigger"] = \
-                        self.seconds_from_nearest_external_trigger[state_inds][cut_inds_in_state]
+                        in_state(self.seconds_from_nearest_external_trigger)[cut_inds_in_state]
         else:
             energy, unixnano = self.getAttr(
                 ["energy", "unixnano"], slice(None), usedCutRecipeName)
-            grp[f"{state}/energy"] = energy
-            grp[f"{state}/unixnano"] = unixnano
+            grp["energy"] = energy
+            grp["unixnano"] = unixnano
         grp["off_filename"] = self.offFile.filename
         grp["used_cut_recipe_name"] = usedCutRecipeName
 
-- 
2.43.0


From 4a562f7c9ec2fe6142f93bfd860077afe3959471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 086/193] fix: qualityCheckLinefit fits the pulses selected by
 its cutRecipeName

---
 mass/off/channels.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 2026e1c..163d813 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -736,8 +736,10 @@ class Channel(CorG):  # noqa: PLR0904
         marks self bad if the fit position is more than toleranceFitSigma*fitSigma away
         from the correct position
         """
-        result = self.linefit(line, attr, states, None, dlo, dhi, binsize, binEdges,
-                              guessParams, cutRecipeName, holdvals)
+        if guessParams is None:
+            guessParams = lmfit.Parameters()
+        result = self.linefit(line, attr, states, dlo=dlo, dhi=dhi, binsize=binsize, binEdges=binEdges, plot=False,
+                              params_fixed=holdvals, cutRecipeName=cutRecipeName, params_update=guessParams)
         fitPos = result.params["peak_ph"].value
         fitSigma = result.params["peak_ph"].stderr
         resolution = result.params["fwhm"].value
-- 
2.43.0


From 15bc698acc9bc6e236a2e44e7bd32e94a1ea8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 087/193] fix: qualityCheckDropOneErrors uses each threshold by
 itself

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 163d813..fd650e7 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -811,7 +811,7 @@ class Channel(CorG):  # noqa: PLR0904
         medianAbsoluteValue = np.median(np.abs(errors))
         k = 1.4826  # https://en.wikipedia.org/wiki/Median_absolute_deviation
         sigma = k * medianAbsoluteValue
-        if thresholdAbsolute is not None:
+        if thresholdSigmaFromMedianAbsoluteValue is not None:
             if maxAbsError > sigma * thresholdSigmaFromMedianAbsoluteValue:
                 self.markBad("qualityCheckDropOneErrors: maximum absolute drop one error {} > theshold {} ({})".format(
                     maxAbsError, sigma * thresholdSigmaFromMedianAbsoluteValue,
-- 
2.43.0


From 93bca79bde20b062f34d14e8933fb1269b14c38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 088/193] fix: OFF linefit works for attributes other than
 energies

---
 mass/off/channels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index fd650e7..79086d9 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -156,7 +156,10 @@ class CorG:
             params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
             params["dph_de"].set(1.0, vary=False)
             unit_str = "eV"
-        if calibration is None:
+        else:
+            # the position of the highest peak tells the scale
+            dph_de = bin_centers[counts.argmax()] / model.spect.peak_energy
+            params = model.guess(counts, bin_centers=bin_centers, dph_de=dph_de)
             unit_str = "arbs"
         if calibration is not None:
             attr_str = f"{attr} with cal"
-- 
2.43.0


From 02bedd0c1eabec6967a1c9146bccdc4e4c98a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 089/193] fix: experiment state times are kept to the
 nanosecond

---
 mass/off/experiment_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 2b779a7..675a222 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -21,7 +21,7 @@ class ExperimentStateFile:
         self.excludeStates = excludeStates
         self.parse_start = 0
         self.allLabels = []
-        self.unixnanos = np.zeros(0)
+        self.unixnanos = np.zeros(0, dtype=np.int64)
         if _parse:
             if self.filename is None:
                 raise Exception("pass filename or datasetFilename or _parse=False")
-- 
2.43.0


From a1a34c02f44a3021d9c50712e4db64ad8bd46d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 090/193] fix: ExperimentStateFile.labels lists an alias of
 several labels once

---
 mass/off/experiment_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 675a222..a37e0b4 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -184,4 +184,5 @@ class ExperimentStateFile:
 
     @property
     def labels(self) -> list[str]:
-        return [self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels]
+        # several labels can have the same alias: list it only once
+        return list(dict.fromkeys(self.labelAliasesDict.get(label, label) for label in self.unaliasedLabels))
-- 
2.43.0


From 57bc6f8ac3a098f9145238876ee62cfb08d8db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 091/193] fix: automatically excluded experiment states are up
 to date when the state file grows

---
 mass/off/experiment_state.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index a37e0b4..944f3e1 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -19,6 +19,7 @@ class ExperimentStateFile:
         else:
             self.filename = None
         self.excludeStates = excludeStates
+        self._autoExcludeStates = excludeStates == "auto"
         self.parse_start = 0
         self.allLabels = []
         self.unixnanos = np.zeros(0, dtype=np.int64)
@@ -83,7 +84,7 @@ class ExperimentStateFile:
         Return a list of state labels that is unique, and contains all entries in allLabels except those in self.excludeStates
         order in the returned list is that of first appearance in allLabels
         """
-        if self.excludeStates == "auto":
+        if self._autoExcludeStates:
             self.excludeStates = self.calculateAutoExcludes()
         r = []
         for label in allLabels:
@@ -104,10 +105,11 @@ class ExperimentStateFile:
         if statesDict is None:
             statesDict = collections.OrderedDict()
 
-        newLabels = self.allLabels[i0_allLabels:]
+        # states can become excluded (see calculateAutoExcludes) when new labels appear
+        for k in [k for k in statesDict.keys() if k not in self.labels]:
+            del statesDict[k]
 
-        if statesDict is None:
-            statesDict = collections.OrderedDict()
+        newLabels = self.allLabels[i0_allLabels:]
 
         # if the statesDict already exists, and there are no new states, update the active state and return the statesDict.
         if len(statesDict.keys()) > 0 and len(newLabels) == 0:
-- 
2.43.0


From e00da10670c1af12b8f74cda07c37ecccd6cfabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 092/193] fix: updating experiment states extends the state
 that was active, also when it is repeated or excluded

---
 mass/off/experiment_state.py | 37 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/mass/off/experiment_state.py b/mass/off/experiment_state.py
index 944f3e1..91df029 100644
--- a/mass/off/experiment_state.py
+++ b/mass/off/experiment_state.py
@@ -111,37 +111,26 @@ class ExperimentStateFile:
 
         newLabels = self.allLabels[i0_allLabels:]
 
-        # if the statesDict already exists, and there are no new states, update the active state and return the statesDict.
-        if len(statesDict.keys()) > 0 and len(newLabels) == 0:
-            assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-                s = statesDict[last_key]
-            if isinstance(s, slice):
-                # set the slice from the start of the state to the last new record
-                s2 = slice(s.start, i0_unixnanos + len(unixnanos))
-            if isinstance(s, list):
-                s_ = s[-1]  # get last instance of same state
-                # set the slice from the start of the state to the last new record
-                s[-1] = slice(s_.start, i0_unixnanos + len(unixnanos))
-                s2 = s
-            statesDict[k] = s2
-            return statesDict
-
         # unixnanos = new record timestamps
         # self.unixnanos[i0_allLabels] is the state start times of the new states
         # i0_unixnanos is how many records were alraedy indexed
         # inds is an np.array of the indices where the new states fit
         #   in with the new records
         inds = np.searchsorted(unixnanos, self.unixnanos[i0_allLabels:]) + i0_unixnanos
-        # the state that was active last time calcStatesDict was called may need special handling
-        if len(statesDict.keys()) > 0 and len(newLabels) > 0:
+        # The state that was active last time calcStatesDict was called now ends at the first new state,
+        # or else at the last new record. (It is not in the statesDict if it's an excluded state.)
+        if len(statesDict.keys()) > 0:
             assert i0_allLabels > 0
-            for k in statesDict.keys():
-                last_key = k
-            s = statesDict[last_key]
-            s2 = slice(s.start, inds[0])
-            statesDict[k] = s2
+            active = self.allLabels[i0_allLabels - 1]
+            k = self.labelAliasesDict.get(active, active)
+            if active in self.unaliasedLabels and k in statesDict:
+                stop = inds[0] if len(inds) > 0 else i0_unixnanos + len(unixnanos)
+                s = statesDict[k]
+                if isinstance(s, list):
+                    # change only the last instance of the state
+                    statesDict[k] = s[:-1] + [slice(s[-1].start, stop)]
+                else:
+                    statesDict[k] = slice(s.start, stop)
         # iterate over self.allLabels because it corresponds to self.unixnanos
         for i, label in enumerate(newLabels):
             if label not in self.unaliasedLabels:
-- 
2.43.0


From e4270c53f726ca451a8c1326be290113668cee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 093/193] fix: refreshFromFiles gives the states that reading
 everything at once would give

---
 mass/off/channels.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 79086d9..2074800 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1210,12 +1210,21 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         self.experimentStateFile.parse()
         n_new_labels = len(self.experimentStateFile.labels) - n_old_labels
         n_new_pulses_dict = collections.OrderedDict()
-        for ds in self.values():
-            i0_unixnanos = len(ds)
-            ds.offFile._updateMmap()  # will update nRecords by mmapping more data in the offFile if available
-            ds._statesDict = self.experimentStateFile.calcStatesDict(
-                ds.unixnano[i0_unixnanos:], ds.statesDict, i0_allLabels, i0_unixnanos)
-            n_new_pulses_dict[ds.channum] = len(ds) - i0_unixnanos
+        has_new_states = len(self.experimentStateFile.allLabels) > i0_allLabels
+        channums = self.keys()
+        with self.includeBad():  # bad channels must stay consistent with the state file, too
+            for ds in self.values():
+                i0_unixnanos = len(ds)
+                ds.offFile._updateMmap()  # will update nRecords by mmapping more data in the offFile if available
+                if ds._statesDict is not None:  # else it will be computed from everything when needed
+                    if has_new_states:
+                        # some of the records read earlier can be later than the start of a new state
+                        ds._statesDict = self.experimentStateFile.calcStatesDict(ds.unixnano)
+                    else:
+                        ds._statesDict = self.experimentStateFile.calcStatesDict(
+                            ds.unixnano[i0_unixnanos:], ds._statesDict, i0_allLabels, i0_unixnanos)
+                if ds.channum in channums:
+                    n_new_pulses_dict[ds.channum] = len(ds) - i0_unixnanos
         return n_new_labels, n_new_pulses_dict
 
     def hist(self, binEdges, attr, states=None, cutRecipeName=None, calibration=None):
-- 
2.43.0


From 7c30d627ddf290af3de7d76b8bf36ace62a3f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:58 +0000
Subject: [PATCH 094/193] fix: experiment states use the category codes
 registered for them

---
 mass/core/channel.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 18a1b83..040b705 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1054,9 +1054,12 @@ class MicrocalDataSet:  # noqa: PLR0904
         nano = self.p_timestamp[:] * 1e9
         slicedict = esf.calcStatesDict(nano)
 
+        codes = self.tes_group.cut_field_categories("state")
         state_codes = np.zeros(self.nPulses, dtype=np.uint32)
-        for id, state in enumerate(slicedict.keys()):
-            slices = slicedict[state]
+        for state, slices in slicedict.items():
+            if state not in codes:
+                LOG.warning("Chan %d: state %s is not a registered state category", self.channum, state)
+                continue
 
             # Ensure `slices` is a list of slices, even if it's a single slice
             if not isinstance(slices, list):
@@ -1064,7 +1067,7 @@ class MicrocalDataSet:  # noqa: PLR0904
 
             # Assign codes for each slice in the list
             for slice in slices:
-                state_codes[slice.start:slice.stop] = id + 1
+                state_codes[slice.start:slice.stop] = codes[state]
 
         self.cuts.cut("state", state_codes)
 
-- 
2.43.0


From 92d4d2e7a55805354e20a7397dea2c8065c37cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 095/193] fix: unregistering a cut field clears its bits, so a
 new field never inherits them

---
 mass/core/cut.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 95c2991..8c9bae6 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -229,6 +229,7 @@ class CutFieldMixin:
 
         self.boolean_cut_desc = boolean_fields
         self.cut_used_bit_flags &= ~clear_mask
+        self.__clear_cut_bits(clear_mask)
 
     def register_categorical_cut_field(self, name, categories, default="uncategorized"):
         """Register one categorical cut field.
@@ -314,6 +315,15 @@ class CutFieldMixin:
         self.categorical_cut_desc = new_categorical_fields
         self.cut_category_list = new_category_list
         self.cut_used_bit_flags &= ~clear_mask
+        self.__clear_cut_bits(clear_mask)
+
+    def __clear_cut_bits(self, clear_mask):
+        """Clear the given bits in the cut masks of all channels, so that a field
+        registered later that uses the same bits doesn't start with stale values."""
+        for name, group in self.hdf5_file.items():
+            if name.startswith("chan") and "cuts/mask" in group:
+                mask = group["cuts/mask"]
+                mask[...] = mask[...] & ~clear_mask
 
 
 class Cuts:
-- 
2.43.0


From 150938a9d1a27c61fe256dd7aa6d6252b4b3bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 096/193] fix: a boolean cut field named twice in one call is
 registered once

---
 mass/core/cut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 8c9bae6..9d57b82 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -192,7 +192,8 @@ class CutFieldMixin:
         boolean_fields = self.boolean_cut_desc
         cut_used_bit_flags = self.cut_used_bit_flags
 
-        new_fields = [n.encode() for n in names if n.encode() not in boolean_fields["name"]]
+        # dict.fromkeys drops repeated names but keeps the order
+        new_fields = [n.encode() for n in dict.fromkeys(names) if n.encode() not in boolean_fields["name"]]
 
         uint32_one = np.uint32(1)
         for new_field in new_fields:
-- 
2.43.0


From a2dacb9333c1ba76d459358bfae4e8c33879c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:10 +0000
Subject: [PATCH 097/193] fix: cut_parameter cuts NaN values, and accepts
 (None, None) among several intervals

---
 mass/core/cut.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mass/core/cut.py b/mass/core/cut.py
index 9d57b82..37d2567 100644
--- a/mass/core/cut.py
+++ b/mass/core/cut.py
@@ -460,6 +460,8 @@ class Cuts:
                             index = data[:] >= a
                         elif b is not None:
                             index = data[:] <= b
+                        else:
+                            index = np.ones_like(data, dtype='bool')
                         cut_vec[index] = False
                     except Exception:
                         raise ValueError(
@@ -473,13 +475,11 @@ class Cuts:
         else:
             try:
                 a, b = allowed
-                if a and b:
-                    self.cut(cut_id, (data[:] <= a) | (data[:] >= b))
-                else:
-                    if a is not None:
-                        self.cut(cut_id, data[:] <= a)
-                    if b is not None:
-                        self.cut(cut_id, data[:] >= b)
+                # Cut whatever doesn't meet a < data < b, including NaN values
+                if a is not None:
+                    self.cut(cut_id, ~(data[:] > a))
+                if b is not None:
+                    self.cut(cut_id, ~(data[:] < b))
             except ValueError:
                 raise ValueError(f'{str(allowed)} was passed as a cut element, but only two-element sequences are valid.')
 
-- 
2.43.0


From c0614015f60865a26303514aa4548d3e15b9d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:22 +0000
Subject: [PATCH 098/193] fix: cut_summary prints the number of pulses cut by
 each field

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 040b705..bdb3acf 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2130,10 +2130,10 @@ class MicrocalDataSet:  # noqa: PLR0904
                 bad2 = self.cuts.bad(c2)
                 n_and = np.logical_and(bad1, bad2).sum()
                 n_or = np.logical_or(bad1, bad2).sum()
-                print(f"{n_and:6d} (and) %{n_or:6d} (or) pulses cut by [{c1.upper()} and/or {c2.upper()}]")
+                print(f"{n_and:6d} (and) {n_or:6d} (or) pulses cut by [{c1.upper()} and/or {c2.upper()}]")
         print()
         for cut_name in boolean_fields:
-            print("{self.cuts.bad(cut_name).sum():6d} pulses cut by {cut_name.upper()}")
+            print(f"{self.cuts.bad(cut_name).sum():6d} pulses cut by {cut_name.upper()}")
         print(f"{self.nPulses:6d} pulses total")
 
     @_add_group_loop()
-- 
2.43.0


From a40ee208734e55256f62d53bbdc4a61d721742d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 099/193] fix: apply_cuts(forceNew=False) leaves existing cuts
 alone

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index bdb3acf..c16bc97 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1653,6 +1653,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             if self.cuts.good().sum() != self.nPulses:
                 LOG.info("Chan %d skipped cuts: after %d are good, %d are bad of %d total pulses",
                          self.channum, self.cuts.good().sum(), self.cuts.bad().sum(), self.nPulses)
+                return
 
         if clear:
             self.clear_cuts()
-- 
2.43.0


From 1e87ddd9e348dd1fe2079dec44b420bbd7d9ff5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 100/193] fix: auto_cuts uses all noise records for the
 post-peak derivative cut

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c16bc97..fd87ced 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2186,10 +2186,11 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         # Step 2: analyze *noise* so we know how to cut on pretrig rms postpeak_deriv
         pretrigger_rms = np.zeros(self.noise_records.nPulses)
+        max_deriv = np.zeros(self.noise_records.nPulses)
         for i in range(self.noise_records.nPulses):
             data = self.noise_records.datafile.alldata[i]
             pretrigger_rms[i] = data[:self.nPresamples].std()
-        max_deriv = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)
+            max_deriv[i] = mass.analysis_algorithms.compute_max_deriv(data, ignore_leading=0)
 
         # Multiply MAD by 1.4826 to get into terms of sigma, if distribution were Gaussian.
         md_med = np.median(max_deriv)
-- 
2.43.0


From d29fb9ad789acc1340131b3a6fbe3756d9d49205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 101/193] fix: automatic cuts are the same after they are
 loaded from the results file

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index fd87ced..6c4b09c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2240,7 +2240,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         cuts = mass.AnalysisControl()
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
-            cuts.cuts_prm[attrname] = (None, g.attrs[attrname])
+            lower_limit = 0 if attrname.endswith("_time_ms") else None
+            cuts.cuts_prm[attrname] = (lower_limit, g.attrs[attrname])
         self.saved_auto_cuts = cuts
 
     @_add_group_loop()
-- 
2.43.0


From 4f0d08a890d2717602e7a4bb0b105353daa98ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 102/193] fix: cleared automatic cuts stay cleared after the
 results file is reopened

---
 mass/core/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 6c4b09c..f3ec53a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1695,6 +1695,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         """Clear all cuts."""
         self.cuts.clear_cut()
         self.saved_auto_cuts = None
+        if "auto_cuts" in self.hdf5_group["cuts"]:
+            del self.hdf5_group["cuts/auto_cuts"]
 
     def correct_flux_jumps(self, flux_quant):
         '''Remove 'flux' jumps' from pretrigger mean.
-- 
2.43.0


From 62234a390813dae39749236a2632597647409cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:03 +0000
Subject: [PATCH 103/193] fix: projectors can be made with automatic cuts
 loaded from the results file

---
 mass/core/channel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index f3ec53a..2db358a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1382,7 +1382,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         if pulses_for_svd is None:
             pulses_for_svd, _ = self.first_n_good_pulses(maximum_n_pulses, category=category)
             pulses_for_svd = pulses_for_svd.T
-        if hasattr(self, "saved_auto_cuts"):
+        if hasattr(self.saved_auto_cuts, "_pretrig_rms_median"):
             pretrig_rms_median = self.saved_auto_cuts._pretrig_rms_median
             pretrig_rms_sigma = self.saved_auto_cuts._pretrig_rms_sigma
         else:
@@ -2231,6 +2231,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         for attrname in ("peak_time_ms", "rise_time_ms", "pretrigger_rms",
                          "postpeak_deriv"):
             g.attrs[attrname] = cuts.cuts_prm[attrname][1]
+        g.attrs["pretrig_rms_median"] = cuts._pretrig_rms_median
+        g.attrs["pretrig_rms_sigma"] = cuts._pretrig_rms_sigma
 
     def __load_auto_cuts(self):
         """Load the results of auto-cuts, if any, from HDF5."""
@@ -2244,6 +2246,9 @@ class MicrocalDataSet:  # noqa: PLR0904
                          "postpeak_deriv"):
             lower_limit = 0 if attrname.endswith("_time_ms") else None
             cuts.cuts_prm[attrname] = (lower_limit, g.attrs[attrname])
+        if "pretrig_rms_median" in g.attrs:
+            cuts._pretrig_rms_median = g.attrs["pretrig_rms_median"]
+            cuts._pretrig_rms_sigma = g.attrs["pretrig_rms_sigma"]
         self.saved_auto_cuts = cuts
 
     @_add_group_loop()
-- 
2.43.0


From 2b2e9721099692b2baeac9dedf23faaf05e8dea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 104/193] fix: records without a pulse don't stop or corrupt
 the summary of a channel

---
 mass/core/cython_channel.pyx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index a07f273..d02785f 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -143,7 +143,11 @@ def summarize_data_cython(
         p_pretrig_rms_array[j] = <float>ptrms
         if ptm < peak_value:
             peak_value -= <unsigned short>(ptm+0.5)
-            p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            if peak_value > 0:
+                p_promptness_array[j] = <float>((promptness_sum / 6.0 - ptm) / peak_value)
+            else:
+                # The record is so quiet that its peak is at the (rounded) pretrigger mean
+                p_promptness_array[j] = <float>0.0
             p_peak_value_array[j] = <unsigned short>peak_value
             p_peak_index_array[j] = <unsigned short>peak_index
         else:
@@ -152,6 +156,7 @@ def summarize_data_cython(
             p_promptness_array[j] = <float>0.0
             p_peak_value_array[j] = <unsigned short>0
             p_peak_index_array[j] = <unsigned short>0
+            peak_value = 0
         p_min_value_array[j] = min_value
         pulse_avg = pulse_sum / (nSamples - nPresamples + 1) - ptm
         p_pulse_average_array[j] = <float>pulse_avg
-- 
2.43.0


From 7814f9048791880a4163544938b0c8f1dabfeed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 105/193] fix: summarize_data handles segments of more than
 65535 records

---
 mass/core/cython_channel.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index d02785f..e056acd 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -46,12 +46,12 @@ def summarize_data_cython(
         double ptm
         unsigned short peak_value, peak_index, min_value
         unsigned short signal
-        unsigned short nPulses, nSamples, seg_size
-        unsigned short e_nPresamples, s_prompt, e_prompt
+        Py_ssize_t nPulses, nSamples, seg_size
+        Py_ssize_t e_nPresamples, s_prompt, e_prompt
 
         unsigned short low_th, high_th
         unsigned short high_value
-        unsigned short low_idx, high_idx
+        Py_ssize_t low_idx, high_idx
 
         long f0 = 2, f1 = 1, f3 = -1, f4 = -2
         long s0, s1, s2, s3, s4
-- 
2.43.0


From f3dec014026c4506731ecf11cded1c4db9bb86fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 106/193] fix: the post-peak derivative never looks beyond the
 end of the record

---
 mass/core/cython_channel.pyx | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mass/core/cython_channel.pyx b/mass/core/cython_channel.pyx
index e056acd..0eeff8b 100644
--- a/mass/core/cython_channel.pyx
+++ b/mass/core/cython_channel.pyx
@@ -56,6 +56,7 @@ def summarize_data_cython(
         long f0 = 2, f1 = 1, f3 = -1, f4 = -2
         long s0, s1, s2, s3, s4
         long t0, t1, t2, t3, t_max_deriv
+        long post_peak
         dict results
 
     nPulses = rawdata.shape[0]
@@ -67,6 +68,10 @@ def summarize_data_cython(
 
     e_nPresamples = nPresamples - pretrigger_ignore
 
+    # The post-peak derivative needs at least 7 samples. Don't look beyond the end of the
+    # record, even if pulses peak near its end.
+    post_peak = min(peak_samplenumber, nSamples - 7)
+
     # Buffers for a single segment calculation.
     p_pretrig_mean_array = np.empty(seg_size, dtype=np.float32)
     p_pretrig_rms_array = np.empty(seg_size, dtype=np.float32)
@@ -197,18 +202,18 @@ def summarize_data_cython(
 
         # Calculating the postpeak_deriv with a simple kernel
         # (f0, f1, f2 = 0, f3, f4) and spike_reject on.
-        s0 = pulse[peak_samplenumber]
-        s1 = pulse[peak_samplenumber + 1]
-        s2 = pulse[peak_samplenumber + 2]
-        s3 = pulse[peak_samplenumber + 3]
-        s4 = pulse[peak_samplenumber + 4]
+        s0 = pulse[post_peak]
+        s1 = pulse[post_peak + 1]
+        s2 = pulse[post_peak + 2]
+        s3 = pulse[post_peak + 3]
+        s4 = pulse[post_peak + 4]
         t0 = f4 * s0 + f3 * s1 + f1 * s3 + f0 * s4
         s0, s1, s2, s3 = s1, s2, s3, s4
-        s4 = pulse[peak_samplenumber + 5]
+        s4 = pulse[post_peak + 5]
         t1 = f4 * s0 + f3 * s1 + f1 * s3 + f0 * s4
         t_max_deriv = libc.limits.LONG_MIN
 
-        for k in range(peak_samplenumber + 6, nSamples):
+        for k in range(post_peak + 6, nSamples):
             s0, s1, s2, s3 = s1, s2, s3, s4
             s4 = pulse[k]
             t2 = f4 * s0 + f3 * s1 + f1 * s3 + f0 * s4
-- 
2.43.0


From ac2d82c29bcb3d41ff7ca66e29f9660a3cc65407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 107/193] fix: summarize_data(use_cython=False) handles records
 without a pulse, or that peak near their end

---
 mass/core/channel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2db358a..58de7e4 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1020,7 +1020,10 @@ class MicrocalDataSet:  # noqa: PLR0904
         # Remove the pretrigger mean from the peak value and the pulse average figures.
         ptm = self.p_pretrig_mean[idx_slice]
         self.p_pulse_average[idx_slice] -= ptm
-        self.p_peak_value[idx_slice] -= np.asarray(ptm, dtype=self.p_peak_value.dtype)
+        # (The peak value is unsigned: use zero if the pretrigger mean exceeds the data after the trigger.)
+        ptm_int = np.asarray(ptm, dtype=self.p_peak_value.dtype)
+        peak_value = self.p_peak_value[idx_slice]
+        self.p_peak_value[idx_slice] = np.where(peak_value > ptm_int, peak_value - ptm_int, 0)
         self.p_pulse_rms[idx_slice] = np.sqrt(
             (posttrig_data**2.0).mean(axis=1)
             - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
@@ -1035,13 +1038,14 @@ class MicrocalDataSet:  # noqa: PLR0904
                   - ptm) / pkval
         prompt[shift1] = (self.data[idx_slice, self.nPresamples + 1:halfidx - 1][shift1, :].mean(axis=1)
                           - ptm[shift1]) / pkval[shift1]
+        prompt[pkval == 0] = 0.0
         self.p_promptness[idx_slice] = prompt
 
         self.p_rise_time[idx_slice] = mass.core.analysis_algorithms.estimateRiseTime(
             all_data, timebase=self.timebase, nPretrig=self.nPresamples - self.cut_pre)
 
         self.p_postpeak_deriv[idx_slice] = mass.core.analysis_algorithms.compute_max_deriv(
-            all_data, ignore_leading=self.peak_samplenumber - self.cut_pre)
+            all_data, ignore_leading=min(self.peak_samplenumber - self.cut_pre, all_data.shape[1] - 7))
 
     def __parse_expt_states(self):
         """
-- 
2.43.0


From 5b65a0145c6419aa72547075176db5084b28f6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 108/193] fix: summarize_data ignores the samples before
 cut_pre and after cut_post also with cython

---
 mass/core/channel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 58de7e4..5c44d76 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -955,8 +955,9 @@ class MicrocalDataSet:  # noqa: PLR0904
                 first = segnum * self.pulse_records.pulses_per_seg
                 end = min(first + self.pulse_records.pulses_per_seg, self.nPulses)
                 idx_slice = slice(first, end)
-                results = sumdata(self.data[idx_slice], self.timebase, self.peak_samplenumber,
-                                  self.pretrigger_ignore_samples, self.nPresamples,
+                data = self.data[idx_slice, self.cut_pre:self.nSamples - self.cut_post]
+                results = sumdata(data, self.timebase, self.peak_samplenumber - self.cut_pre,
+                                  self.pretrigger_ignore_samples, self.nPresamples - self.cut_pre,
                                   0, end - first)
                 self.p_pretrig_mean[idx_slice] = results["pretrig_mean"][:]
                 self.p_pretrig_rms[idx_slice] = results["pretrig_rms"][:]
@@ -964,7 +965,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 self.p_pulse_rms[idx_slice] = results["pulse_rms"][:]
                 self.p_promptness[idx_slice] = results["promptness"][:]
                 self.p_postpeak_deriv[idx_slice] = results["postpeak_deriv"][:]
-                self.p_peak_index[idx_slice] = results["peak_index"][:]
+                self.p_peak_index[idx_slice] = np.asarray(results["peak_index"]) + np.uint16(self.cut_pre)
                 self.p_peak_value[idx_slice] = results["peak_value"][:]
                 self.p_min_value[idx_slice] = results["min_value"][:]
                 self.p_rise_time[idx_slice] = results["rise_times"][:]
-- 
2.43.0


From 4e87453345bf5eace6a4f9e30ec5124b6b9cd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:15 +0000
Subject: [PATCH 109/193] fix: the group's n_segments is a number of segments
 after set_segment_size

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 437c008..2027bb0 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1083,7 +1083,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         self.n_segments = 0
         for ds in self:
             ds.pulse_records.set_segment_size(seg_size)
-            self.n_segments = max(self.n_segments, ds.pulse_records.pulses_per_seg)
+            self.n_segments = max(self.n_segments, ds.pulse_records.n_segments)
         self.pulses_per_seg = self.first_good_dataset.pulse_records.pulses_per_seg
         for ds in self:
             assert ds.pulse_records.pulses_per_seg == self.pulses_per_seg
-- 
2.43.0


From ba17597d5d1059526b3d161d8e2ab56034cd5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 110/193] fix: summarize_data(use_cython=False) finds the pulse
 rms without loss of precision

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 5c44d76..20ae811 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1025,9 +1025,9 @@ class MicrocalDataSet:  # noqa: PLR0904
         ptm_int = np.asarray(ptm, dtype=self.p_peak_value.dtype)
         peak_value = self.p_peak_value[idx_slice]
         self.p_peak_value[idx_slice] = np.where(peak_value > ptm_int, peak_value - ptm_int, 0)
+        # Subtract before squaring: single-precision squares of large raw data would swamp the rms of small signals.
         self.p_pulse_rms[idx_slice] = np.sqrt(
-            (posttrig_data**2.0).mean(axis=1)
-            - ptm * (ptm + 2 * self.p_pulse_average[idx_slice]))
+            ((posttrig_data - pretrig_data.mean(axis=1)[:, np.newaxis])**2).mean(axis=1))
 
         shift1 = (self.data[idx_slice, self.nPresamples - 1] - ptm
                   > 4.3 * self.p_pretrig_rms[idx_slice])
-- 
2.43.0


From 3f5529f8e5cbf8090c82656782c253381274c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:12 +0000
Subject: [PATCH 111/193] fix: ToeplitzWhitener is right for pure AR or MA
 models and for integer arrays

With q=0 (or p=0 in solveW) the first sample was divided by theta[0] (phi[0])
twice, integer matrices were truncated to integers, and 3-dimensional arrays
were accepted.
---
 mass/core/optimal_filtering.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index fe4d327..136b7a7 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -65,8 +65,8 @@ class ToeplitzWhitener:
 
     def __call__(self, v: npt.ArrayLike) -> np.ndarray:
         "Return whitened vector (or matrix of column vectors) Wv"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be an array of dimension 1 or 2")
         elif v.ndim == 2:
             w = np.zeros_like(v)
@@ -89,7 +89,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
-        for i in range(self.q, N):
+        for i in range(max(1, self.q), N):
             for j in range(i - self.q, i):
                 y[i] -= y[j] * self.theta[i - j]
             y[i] /= self.theta[0]
@@ -97,8 +97,8 @@ class ToeplitzWhitener:
 
     def solveW(self, v: npt.ArrayLike) -> np.ndarray:
         "Return unwhitened vector (or matrix of column vectors) inv(W)*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -121,7 +121,7 @@ class ToeplitzWhitener:
             for j in range(i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
-        for i in range(self.p, N):
+        for i in range(max(1, self.p), N):
             for j in range(i - self.p, i):
                 y[i] -= y[j] * self.phi[i - j]
             y[i] /= self.phi[0]
@@ -129,8 +129,8 @@ class ToeplitzWhitener:
 
     def solveWT(self, v: npt.ArrayLike) -> np.ndarray:
         "Return vector (or matrix of column vectors) inv(W')*v"
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
@@ -149,8 +149,8 @@ class ToeplitzWhitener:
 
     def applyWT(self, v: npt.ArrayLike) -> np.ndarray:
         """Return vector (or matrix of column vectors) W'v"""
-        v = np.asarray(v)
-        if v.ndim > 3:
+        v = np.asarray(v, dtype=float)
+        if v.ndim > 2:
             raise ValueError("v must be dimension 1 or 2")
         elif v.ndim == 2:
             r = np.zeros_like(v)
-- 
2.43.0


From f58e97882acd4999d72ed64e49929cf39832dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:34 +0000
Subject: [PATCH 112/193] fix: a whitener alone is enough to compute filters

As documented, the whitener supersedes the noise autocorrelation. But
compute_5lag ignored it, and both compute_5lag and compute_ats failed when only
a whitener was given. Also refuse to band-limit an arrival-time-safe filter
when the sample time is unknown (zero), as for 5-lag filters.
---
 mass/core/optimal_filtering.py | 38 +++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 136b7a7..1c430d1 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -402,18 +402,22 @@ class FilterMaker:
         shorten = 2
         truncated_signal = avg_signal[shorten:-shorten]
         n = len(truncated_signal)
-        assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
+        if self.noise_autocorr is not None:
+            assert len(noise_autocorr) >= n, "Noise autocorrelation vector is too short for signal size"
 
-        noise_corr = noise_autocorr[:n]
-        TS = ToeplitzSolver(noise_corr, symmetric=True)
-        Rinv_sig = TS(truncated_signal)
-        Rinv_1 = TS(np.ones(n))
+        if self.whitener is not None:
+            Rinv_sig = self.whitener.applyWT(self.whitener(truncated_signal))
+            Rinv_1 = self.whitener.applyWT(self.whitener(np.ones(n)))
+        else:
+            TS = ToeplitzSolver(noise_autocorr[:n], symmetric=True)
+            Rinv_sig = TS(truncated_signal)
+            Rinv_1 = TS(np.ones(n))
         filt_noconst = Rinv_1.sum() * Rinv_sig - Rinv_sig.sum() * Rinv_1
 
         band_limit(filt_noconst, self.sample_time_sec, fmax, f_3db)
 
         self._normalize_5lag_filter(filt_noconst, avg_signal)
-        variance = bracketR(filt_noconst, noise_corr)
+        variance = self._filter_variance(filt_noconst)
 
         # Set weights in the cut_pre and cut_post windows to 0
         if cut_pre > 0 or cut_post > 0:
@@ -538,7 +542,7 @@ class FilterMaker:
             raise ValueError("Filter must have noise_autocorr or whitener arguments to generate ATS filters")
         if self.dt_model is None:
             raise ValueError("Filter must have dt_model to generate ATS filters")
-        if self.sample_time_sec is None and not (fmax is None and f_3db is None):
+        if self.sample_time_sec <= 0 and not (fmax is None and f_3db is None):
             raise ValueError(
                 "Filter must have a sample_time_sec if it's to be smoothed with fmax or f_3db")
 
@@ -572,6 +576,7 @@ class FilterMaker:
             filt = np.dot(Ainv, RinvM.T)
 
         band_limit(filt.T, self.sample_time_sec, fmax, f_3db)
+        variance = self._filter_variance(filt[0])
 
         if cut_pre > 0 or cut_post > 0:
             nfilt = filt.shape[0]
@@ -583,7 +588,6 @@ class FilterMaker:
         filt_dt = filt[1]
         filt_baseline = filt[2]
 
-        variance = bracketR(filt_noconst, self.noise_autocorr)
         vdv = peak / (np.log(2) * 8 * variance)**0.5
         return Filter(filt_noconst, peak, variance, vdv, filt_dt, filt_baseline, avg_signal, dt_model, 1,
                       fmax, f_3db, cut_pre, cut_post, "ats")
@@ -609,6 +613,24 @@ class FilterMaker:
         N = len(np.asarray(self.signal_model))
         return np.asarray(self.noise_autocorr)[:N - (cut_pre + cut_post)]
 
+    def _filter_variance(self, filt: np.ndarray) -> float:
+        """The variance of a filter's output due to noise. Uses the noise autocorrelation if it's known,
+        otherwise the whitener.
+
+        Parameters
+        ----------
+        filt : np.ndarray
+            The filter's weights, without any zero weights for samples cut at either end of the record.
+
+        Returns
+        -------
+        float
+            Variance of the filter output.
+        """
+        if self.noise_autocorr is None:
+            return (self.whitener.solveWT(filt)**2).sum()
+        return bracketR(filt, np.asarray(self.noise_autocorr))
+
     def _normalize_signal(self, cut_pre: int = 0, cut_post: int = 0) -> tuple[np.ndarray, float, np.ndarray]:
         """Compute the normalized signal, peak value, and first-order arrival-time model.
 
-- 
2.43.0


From cdccb24fa23e6dff2a7ed19bbbfd1a6e75368660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:08 +0000
Subject: [PATCH 113/193] fix: filters of negative-going pulses, and of models
 that aren't float arrays

A negative-going model was divided by its largest value above the baseline,
which is only noise (or zero). Models given as integers failed. And a filter
full of NaN was made when the cuts leave no pretrigger sample.
---
 mass/core/optimal_filtering.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index 1c430d1..bcc7d8b 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -653,39 +653,40 @@ class FilterMaker:
         ValueError
             If negative numbers of samples are to be cut, or the entire record is to be cut.
         """
-        avg_signal = np.array(self.signal_model)
+        avg_signal = np.array(self.signal_model, dtype=float)
         ns = len(avg_signal)
-        pre_avg = avg_signal[cut_pre:self.n_pretrigger - 1].mean()
 
         if cut_pre < 0 or cut_post < 0:
             raise ValueError(f"(cut_pre,cut_post)=({cut_pre},{cut_post}), but neither can be negative")
         if cut_pre + cut_post >= ns:
             raise ValueError(f"cut_pre+cut_post = {cut_pre + cut_post} but should be < {ns}")
+        if cut_pre >= self.n_pretrigger - 1:
+            raise ValueError(f"cut_pre = {cut_pre} but should be < n_pretrigger-1 = {self.n_pretrigger - 1}")
+        pre_avg = avg_signal[cut_pre:self.n_pretrigger - 1].mean()
 
         # Unless passed in, find the signal's peak value. This is normally peak=(max-pretrigger).
         # If signal is negative-going, however, then peak=(pretrigger-min).
+        a = avg_signal[cut_pre:ns - cut_post].min()
+        b = avg_signal[cut_pre:ns - cut_post].max()
+        is_negative = pre_avg - a > b - pre_avg
         if self.peak > 0.0:
             peak_signal = self.peak
+        elif is_negative:
+            peak_signal = pre_avg - a
         else:
-            a = avg_signal[cut_pre:ns - cut_post].min()
-            b = avg_signal[cut_pre:ns - cut_post].max()
-            is_negative = pre_avg - a > b - pre_avg
-            if is_negative:
-                peak_signal = a - pre_avg
-            else:
-                peak_signal = b - pre_avg
+            peak_signal = b - pre_avg
 
         # avg_signal: normalize to have unit peak
         avg_signal -= pre_avg
 
-        rescale = 1 / np.max(avg_signal)
+        rescale = 1 / np.max(-avg_signal if is_negative else avg_signal)
         avg_signal *= rescale
         avg_signal[:self.n_pretrigger] = 0.0
         avg_signal = avg_signal[cut_pre:ns - cut_post]
         if self.dt_model is None:
             dt_model = np.array([], dtype=float)
         else:
-            dt_model = self.dt_model * rescale
+            dt_model = np.asarray(self.dt_model) * rescale
             dt_model = dt_model[cut_pre:ns - cut_post]
         return avg_signal, peak_signal, dt_model
 
-- 
2.43.0


From ff5e707833ee7ac906247f9f7b6031f549702e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:08 +0000
Subject: [PATCH 114/193] fix: Fourier filters can be computed

compute_fourier always failed: it truncated the signal by the two samples at
each end before using it to normalize the filter, which needs the full length.
Also fix what this failure had hidden: the truncated noise autocorrelation
wasn't symmetric (and off by one sample), records of odd length failed, the
band limits were at slightly wrong frequencies, and the variance was divided by
the square of `peak` (zero by default), unlike that of the other filters.
---
 mass/core/optimal_filtering.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index bcc7d8b..f9d8dc5 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -464,48 +464,47 @@ class FilterMaker:
         if cut_pre < 0 or cut_post < 0:
             raise ValueError(f"(cut_pre,cut_post)=({cut_pre},{cut_post}), but neither can be negative")
 
+        if self.sample_time_sec <= 0 and not (self.noise_autocorr is not None and fmax is None and f_3db is None):
+            raise ValueError(
+                "Filter must have a sample_time_sec if it's to be smoothed with fmax or f_3db, or if noise_autocorr is unknown")
+
         avg_signal, peak, _ = self._normalize_signal(cut_pre, cut_post)
         noise_psd = np.asarray(self.noise_psd)
 
         shorten = 2  # to use in 5-lag style
-        avg_signal = avg_signal[shorten:-shorten]
+        truncated_signal = avg_signal[shorten:-shorten]
         n = len(noise_psd)
-        window = 1.0
-        sig_ft = np.fft.rfft(avg_signal * window)
+        sig_ft = np.fft.rfft(truncated_signal)
 
         if len(sig_ft) != n - shorten:
             raise ValueError(f"signal real DFT and noise PSD are not the same length ({len(sig_ft)} and {n})")
 
         # Careful with PSD: "shorten" it by converting into a real space autocorrelation,
         # truncating the middle, and going back to Fourier space
-        if shorten > 0:
-            noise_autocorr = np.fft.irfft(noise_psd)
-            noise_autocorr = np.hstack((noise_autocorr[:n - shorten - 1],
-                                        noise_autocorr[-n + shorten:]))
-            noise_psd = np.fft.rfft(noise_autocorr)
+        nfilt = len(truncated_signal)
+        circulant = np.fft.irfft(noise_psd, n=len(avg_signal))
+        circulant = np.hstack((circulant[:nfilt // 2 + 1], circulant[-((nfilt - 1) // 2):]))
+        noise_psd = np.fft.rfft(circulant).real
         sig_ft_weighted = sig_ft / noise_psd
 
         # Band-limit
         if fmax is not None or f_3db is not None:
-            freq = np.arange(0, n - shorten, dtype=float) * \
-                0.5 / ((n - 1) * self.sample_time_sec)
+            freq = np.fft.rfftfreq(nfilt, d=self.sample_time_sec)
             if fmax is not None:
                 sig_ft_weighted[freq > fmax] = 0.0
             if f_3db is not None:
                 sig_ft_weighted /= (1 + (freq * 1.0 / f_3db)**2)
 
         sig_ft_weighted[0] = 0.0
-        filt_fourier = np.fft.irfft(sig_ft_weighted) / window
+        filt_fourier = np.fft.irfft(sig_ft_weighted, n=nfilt)
         self._normalize_5lag_filter(filt_fourier, avg_signal)
 
         # How we compute the uncertainty depends on whether there's a noise autocorrelation result
         if self.noise_autocorr is None:
-            noise_ft_squared = (len(noise_psd) - 1) / self.sample_time_sec * noise_psd
-            kappa = (np.abs(sig_ft * self.peak)**2 / noise_ft_squared)[1:].sum()
-            variance_fourier = 1. / kappa
+            ac = circulant / (2 * self.sample_time_sec)
         else:
-            ac = np.array(self.noise_autocorr)[:len(filt_fourier)]
-            variance_fourier = bracketR(filt_fourier, ac) / self.peak**2
+            ac = np.asarray(self.noise_autocorr)
+        variance_fourier = bracketR(filt_fourier, ac)
         vdv = peak / (8 * np.log(2) * variance_fourier)**0.5
         return Filter(filt_fourier, peak, variance_fourier, vdv, None, None, avg_signal, None, 1 + 2 * shorten,
                       fmax, f_3db, cut_pre, cut_post, "fourier")
-- 
2.43.0


From d957eaf8ac68a5e438e51cffb06c99610c682e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:20 +0000
Subject: [PATCH 115/193] fix: noise spectra of odd-length records, and of data
 without any usable record

Records with an odd number of samples were never added to the power spectrum,
which became NaN. If all records were rejected for their excursions, the
spectrum and the autocorrelation became NaN instead of an error. Records with
exactly the allowed excursion now count for the spectrum, too, as they do for
the autocorrelation.
---
 mass/core/channel.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 20ae811..e969113 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -182,11 +182,12 @@ class NoiseRecords:
         if seg_length is None:
             seg_length = self.nSamples
 
+        # Spectra need an even number of samples: drop the last one of odd-length segments.
         spectrum = mass.mathstat.power_spectrum.PowerSpectrum(seg_length // 2, dt=self.timebase)
         if window is None:
-            window = np.ones(seg_length)
+            window = np.ones(spectrum.m2)
         else:
-            window = window(seg_length)
+            window = window(spectrum.m2)
 
         data = self.datafile.alldata
         if self.continuous and seg_length is not None:
@@ -195,9 +196,11 @@ class NoiseRecords:
             data = data[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
-            y = d - d.mean()
-            if y.max() - y.min() < max_excursion and len(y) == spectrum.m2:
-                spectrum.addDataSegment(y, window=window)
+            d = d[:spectrum.m2]
+            if d.max() - d.min() <= max_excursion:
+                spectrum.addDataSegment(d - d.mean(), window=window)
+        if spectrum.nsegments == 0:
+            raise ValueError("All noise segments had excursions, so no power spectrum was computed")
 
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
@@ -396,6 +399,8 @@ class NoiseRecords:
             samples_used += self.nSamples
             records_used += 1
 
+        if records_used == 0:
+            raise ValueError("All noise records had excursions, so no autocorrelation was computed")
         ac /= records_used
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
         if n_lags < self.nSamples:
-- 
2.43.0


From adc1ba5a5da3b6c0a61535c3c51ae592dea2291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:20 +0000
Subject: [PATCH 116/193] fix: noise can be analyzed with a segment length
 other than the record length

NoiseRecords.compute_power_spectrum_reshape, compute_fancy_power_spectra and
compute_autocorrelation failed for any length but that of the records (also
compute_noise_nlags, therefore), and compute_noise_spectra failed always. The
argument data_samples counted records instead of samples if the data are
continuous.
---
 mass/core/channel.py | 46 ++++++++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e969113..37d3aa2 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -80,10 +80,14 @@ class NoiseRecords:
         self.datafile = None
         self.data = None
         self.saved_auto_cuts = None
+        self.hdf5_group = None
 
         self.__open_file(filename, use_records=use_records)
+        for attr in ("nSamples", "nPresamples", "nPulses", "timebase", "n_segments"):
+            setattr(self, attr, getattr(self.datafile, attr))
         self.continuous = records_are_continuous
         self.noise_psd = None
+        self.autocorrelation = None
 
     def set_hdf5_group(self, hdf5_group):
         if hdf5_group is None:
@@ -191,8 +195,8 @@ class NoiseRecords:
 
         data = self.datafile.alldata
         if self.continuous and seg_length is not None:
-            n = np.prod(data.shape)
-            n -= n % seg_length
+            data = np.ravel(data)
+            n = len(data) - len(data) % seg_length
             data = data[:n].reshape((n // seg_length, seg_length))
 
         for d in data:
@@ -205,6 +209,10 @@ class NoiseRecords:
         freq = spectrum.frequencies()
         psd = spectrum.spectrum()
         if self.hdf5_group is not None:
+            grp = self.hdf5_group
+            if seg_length != self.nSamples:
+                grp = grp.require_group(f"reclen{seg_length}")
+            self.noise_psd = grp.require_dataset("noise_psd", shape=psd.shape, dtype=np.float64)
             self.noise_psd[:] = psd
             self.noise_psd.attrs["delta_f"] = freq[1] - freq[0]
         else:
@@ -218,7 +226,7 @@ class NoiseRecords:
         """
         assert self.continuous
 
-        n = np.prod(self.datafile.data.shape)
+        n = np.prod(self.datafile.alldata.shape)
         if seglength_choices is None:
             longest_seg = 1
             while longest_seg <= n // 16:
@@ -322,7 +330,10 @@ class NoiseRecords:
         entries = 0.0
 
         first, last = data_samples
-        data = self.datafile.alldata[first:last].ravel()
+        first_rec = first // self.nSamples
+        last_rec = -(-last // self.nSamples)
+        data = self.datafile.alldata[first_rec:last_rec].ravel()
+        data = data[first - first_rec * self.nSamples:last - first_rec * self.nSamples]
         Nchunks = np.prod(data.shape) // chunksize
         datachunks = data[:Nchunks * chunksize].reshape(Nchunks, chunksize)
         for data in datachunks:
@@ -344,7 +355,21 @@ class NoiseRecords:
 
         ac /= entries
         ac /= (np.arange(chunksize, chunksize - n_lags + 0.5, -1.0, dtype=float))
+        self.__save_autocorrelation(ac)
+
+    def __save_autocorrelation(self, ac):
+        """Store the autocorrelation `ac` as self.autocorrelation."""
+        if self.hdf5_group is None:
+            self.autocorrelation = ac
+            return
+        n_lags = len(ac)
+        grp = self.hdf5_group.require_group(f"reclen{n_lags}")
+        self.autocorrelation = grp.require_dataset("autocorrelation", shape=(n_lags,), dtype=np.float64)
         self.autocorrelation[:] = ac
+        if n_lags == self.nSamples:
+            self.autocorrelation = self.hdf5_group.require_dataset(
+                "autocorrelation", shape=(n_lags,), dtype=np.float64)
+            self.autocorrelation[:] = ac
 
     def compute_autocorrelation(self, n_lags=None, data_samples=None, plot=True, max_excursion=1000):
         """Compute the autocorrelation averaged across all "pulses" in the file.
@@ -362,11 +387,6 @@ class NoiseRecords:
             self._compute_broken_autocorrelation(n_lags=n_lags, data_samples=data_samples,
                                                  max_excursion=max_excursion)
 
-        if self.hdf5_group is not None:
-            grp = self.hdf5_group.require_group(f"reclen{n_lags}")
-            ds = grp.require_dataset("autocorrelation", shape=(n_lags,), dtype=np.float64)
-            ds[:] = self.autocorrelation[:]
-
         if plot:
             self.plot_autocorrelation()
 
@@ -405,7 +425,7 @@ class NoiseRecords:
         ac /= self.nSamples - np.arange(self.nSamples, dtype=float)
         if n_lags < self.nSamples:
             ac = ac[:n_lags]
-        self.autocorrelation[:] = ac
+        self.__save_autocorrelation(ac)
 
     def plot_autocorrelation(self, axis=None, color='blue', label=None):
         """Plot the autocorrelation function."""
@@ -1606,7 +1626,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 (default None).
             forceNew (bool): whether to recompute if it already exists (default False).
         """
-        self.noise_records_nlags = NoiseRecords(self.noise_records.filename)
+        self.noise_records_nlags = NoiseRecords(self.noise_records.filename, records_are_continuous=True)
         self.noise_records_nlags.compute_power_spectrum_reshape(
             max_excursion=max_excursion, seg_length=n_lags)
         self.noise_records_nlags.compute_autocorrelation(
@@ -1646,7 +1666,9 @@ class MicrocalDataSet:  # noqa: PLR0904
     @deprecated(deprecated_in="0.7.9", details="Use compute_noise(), which is equivalent but better named")
     def compute_noise_spectra(self, max_excursion=1000, n_lags=None, forceNew=False):
         """Replaced by the equivalent compute_noise(...)"""
-        return self.compute_noise(max_excursion=max_excursion, n_lags=n_lags, forceNew=forceNew)
+        if n_lags is not None:
+            raise ValueError("n_lags is no longer supported, use compute_noise_nlags(...)")
+        return self.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
 
     @_add_group_loop()
     def apply_cuts(self, controls, clear=False, forceNew=True):
-- 
2.43.0


From 5f8b8af09de1c0e834d74c565422cef566e1fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 117/193] fix: NoiseRecords(use_records=...) analyzes only
 those records

A sequence (first,end) as documented was a TypeError, and with a number all
records were still used for the power spectrum.
---
 mass/core/channel.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 37d3aa2..f1723ef 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -130,12 +130,17 @@ class NoiseRecords:
             raise RuntimeError("It is a programming error to get here")
         self.filename = filename
         self.records_per_segment = self.datafile.segmentsize // (6 + 2 * self.datafile.nSamples)
-        self.data = self.datafile.alldata
 
         if use_records is not None:
-            if use_records < self.datafile.nPulses:
-                self.datafile.nPulses = use_records
-                self.datafile.n_segments = use_records // self.records_per_segment
+            first, end = (0, use_records) if np.isscalar(use_records) else use_records
+            if file_format == "ljh":
+                self.datafile._mm = self.datafile._mm[first:end]
+            else:
+                self.datafile.data = self.datafile.data[first:end]
+            self.datafile.nPulses = len(range(self.datafile.nPulses)[first:end])
+            self.datafile.n_segments = -(-self.datafile.nPulses // self.records_per_segment)
+
+        self.data = self.datafile.alldata
 
     def set_fake_data(self):
         """Use when this does not correspond to a real datafile."""
-- 
2.43.0


From a9f209248f313707974ce948b81b4a5affb39ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 118/193] fix: assume_white_noise sets the frequency step of
 the power spectrum

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index f1723ef..b320654 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1617,6 +1617,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.noise_autocorr[0] = noise_variance
             psd = 2.0 * noise_variance * self.timebase
             self.noise_psd[:] = psd
+            self.noise_psd.attrs['delta_f'] = 1.0 / (2 * (self.nSamples // 2) * self.timebase)
 
     @_add_group_loop()
     def compute_noise_nlags(self, n_lags, max_excursion=1000, plot=False):
-- 
2.43.0


From e42df2f230009d4b61f1409583ce46db99d91bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 119/193] fix: 5-lag filtering of constant records, and with
 filters of the wrong length

A record for which all five lags are equal (a dead channel, for instance) stopped
the filtering of the entire channel with a ZeroDivisionError. A filter that
doesn't match the records made the compiled code read beyond its end.
---
 mass/core/analysis_algorithms.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/core/analysis_algorithms.pyx b/mass/core/analysis_algorithms.pyx
index 90d7d57..c56aa52 100644
--- a/mass/core/analysis_algorithms.pyx
+++ b/mass/core/analysis_algorithms.pyx
@@ -832,6 +832,7 @@ def correct_flux_jumps(vals, g, flux_quant):
 @cython.embedsignature(True)
 @cython.boundscheck(False)
 @cython.wraparound(False)
+@cython.cdivision(True)
 def filter_data_5lag_cython(
     const unsigned short[:,:] rawdata,
     double[:] filter_values,
@@ -850,6 +851,9 @@ def filter_data_5lag_cython(
     nPulses = rawdata.shape[0]
     nSamples = rawdata.shape[1]
     filter_length = nSamples - 4
+    if filter_length < 4 or filter_values.shape[0] != filter_length:
+        raise ValueError("5-lag filter has length %d, but must be >=4 and 4 less than the record length %d"
+                         % (filter_values.shape[0], nSamples))
     if pulses_per_seg <= 0:
         pulse_size_bytes = 16+2*nSamples
         bigblock = 2**22
-- 
2.43.0


From 8fec1c88cfbb9b5470107bc2d044886c46686019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:13 +0000
Subject: [PATCH 120/193] fix: filter_data(transform=...) transforms the data

The transform was ignored with 5-lag filters, and failed with arrival-time-safe
filters unless all the data are in one segment.
---
 mass/core/channel.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index b320654..b7cb288 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1347,7 +1347,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
 
         if use_cython is None:
-            use_cython = self._filter_type == "5lag"
+            use_cython = self._filter_type == "5lag" and transform is None
 
         if self.filter is not None:
             filter_values = self.filter.values
@@ -1357,6 +1357,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         if use_cython:
             if self._filter_type == "ats":
                 raise ValueError("Cannot perform Arrival-Time-Safe filtering in Cython yet")
+            if transform is not None:
+                raise ValueError("Cannot transform data before filtering in Cython yet")
             fdata = mass.core.analysis_algorithms.filter_data_5lag_cython
             fv, fp = fdata(self.alldata, filter_values)
             self.p_filt_value[:] = fv[:]
@@ -1375,6 +1377,8 @@ class MicrocalDataSet:  # noqa: PLR0904
                 # when dastard uses kink model for determining trigger location, we don't need to shift1
                 # this code path should be followed when filters are created with the shift1=False argument
                 filterfunction = self._filter_data_segment_ats_dont_shift1
+            else:
+                raise ValueError(f"filter of length {len(filter_values)} doesn't match records of {self.nSamples} samples")
             filter_AT = self.filter.dt_values
         elif self._filter_type == "5lag":
             filterfunction = self._filter_data_segment_5lag
@@ -1485,7 +1489,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         data = self.data[first:end]
         if transform is not None:
             ptmean = self.p_pretrig_mean[first:end]
-            data = transform(self.data - ptmean.reshape((seg_size, 1)))
+            data = transform(data - ptmean.reshape((seg_size, 1)))
         conv0 = np.dot(data[:, 1:], filter_values)
         conv1 = np.dot(data[:, 1:], filter_AT)
 
@@ -1498,7 +1502,7 @@ class MicrocalDataSet:  # noqa: PLR0904
 
     def _filter_data_segment_ats_dont_shift1(self, filter_values, filter_AT, first, end, transform=None):
         # when using a zero threshold trigger (eg dastard using the kink-model) no shift is neccesary
-        assert len(filter_values == self.nSamples)
+        assert len(filter_values) == self.nSamples
         seg_size = end - first
         data = self.data[first:end, :]
         if transform is not None:
-- 
2.43.0


From b7034cb554160955298ef60cde34944b4cedf842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 121/193] fix: overwriting a stored phase correction leaves no
 curves of the old one

---
 mass/core/phase_correct.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index c6e3f40..1c82f89 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -37,6 +37,11 @@ class PhaseCorrector:
         h5group_update("uncorrected_name", self.uncorrectedName)
         h5group_update("indicator_name", self.indicatorName)
         h5group_update("version", self.version)
+        # Remove any corrections left by an earlier, longer list, or fromHDF5 would read them, too.
+        i = len(self.corrections)
+        while overwrite and f"correction_{i}_x" in group:
+            del group[f"correction_{i}_x"], group[f"correction_{i}_y"]
+            i += 1
         for (i, correction) in enumerate(self.corrections):
             h5group_update(f"correction_{i}_x", correction._x)
             h5group_update(f"correction_{i}_y", correction._y)
-- 
2.43.0


From 7539c64a7349208533268860c34a28e39ca8011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 122/193] fix: phase_correct does not reorder the caller's list
 of peaks

---
 mass/core/phase_correct.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 1c82f89..e7d1fb0 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -91,8 +91,7 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
         ph_peaks = _find_peaks_heuristic(pheight)
     if len(ph_peaks) <= 0:
         raise ValueError("Could not phase_correct because no peaks found")
-    ph_peaks = np.asarray(ph_peaks)
-    ph_peaks.sort()
+    ph_peaks = np.sort(ph_peaks)
 
     # Compute a correction function at each line in ph_peaks
     corrections = []
-- 
2.43.0


From 018c8f0e023b6740e9fc0b147c1b951fd8c282f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 123/193] fix: phase correction of data with a single line is
 not NaN

---
 mass/core/phase_correct.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index e7d1fb0..8a96fc6 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -139,8 +139,10 @@ def phase_correct(phase, pheight, ph_peaks=None, method2017=True, kernel_width=N
             phase_uniformifier_x = crazy_spline._data[0]
             phase_uniformifier_y = crazy_spline._data[1]
         else:
-            phase_uniformifier_x = np.array([0, 0, 0, 0])
-            phase_uniformifier_y = np.array([0, 0, 0, 0])
+            # All pulses have similar heights, so they can only be assigned the same central phase.
+            # (Use distinct x values, because a spline through repeated ones is NaN everywhere.)
+            phase_uniformifier_x = np.array([0.0, np.max(ph_peaks)])
+            phase_uniformifier_y = np.median(phase) + np.zeros(2)
 
     return PhaseCorrector(phase_uniformifier_x, phase_uniformifier_y, corrections,
                           indicatorName, uncorrectedName)
-- 
2.43.0


From deee47ec4b2d455a6e71b4932c1155f61a5336eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 124/193] fix: phase_correct without any peak says so instead
 of raising IndexError

---
 mass/core/phase_correct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 8a96fc6..6b9f5a4 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -319,7 +319,10 @@ def _find_peaks_heuristic(phnorm):
     # but the requirement is not more than 5% of data (for meager data sets)
     Ntotal = len(phnorm)
     MinCountsInPeak = min(max(500, Ntotal // 200), Ntotal // 20)
-    pk2 = pk1[hist[pk1] > MinCountsInPeak]
+    pk2 = [pk for pk in pk1 if hist[pk] > MinCountsInPeak]
+    if len(pk2) == 0:
+        return np.array([])
+    pk2 = np.array(pk2)
 
     # Now take peaks from highest to lowest, provided they are at least 40 bins from any neighbor
     ordering = hist[pk2].argsort()
-- 
2.43.0


From db590fa5f876774ec7d17627f6cf6d3a96de6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 125/193] fix: the phase correction records which pulse heights
 it was made for

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index b7cb288..68efe15 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1859,7 +1859,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.phaseCorrector = phase_correct.phase_correct(self.p_filt_phase[good],
                                                           getattr(self, attr)[good],
                                                           ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
-                                                          indicatorName="p_filt_phase", uncorrectedName="p_filt_value_dc")
+                                                          indicatorName="p_filt_phase", uncorrectedName=attr)
 
         self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
         self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
-- 
2.43.0


From 4303befbe2848cbac514b1bb45306149f77506b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 126/193] fix: the corrected phase is the phase minus its
 typical value at that pulse height

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 68efe15..596642a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1861,7 +1861,8 @@ class MicrocalDataSet:  # noqa: PLR0904
                                                           ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
                                                           indicatorName="p_filt_phase", uncorrectedName=attr)
 
-        self.p_filt_phase_corr[:] = self.phaseCorrector.phase_uniformifier(self.p_filt_phase[:])
+        self.p_filt_phase_corr[:] = self.p_filt_phase[:] - \
+            self.phaseCorrector.phase_uniformifier(getattr(self, attr)[:])
         self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
 
         if save_to_hdf5:
-- 
2.43.0


From c4b2e284bf34d8ace96f80d3e0fcef6f79d47c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 127/193] fix: time_drift_correct uses its limits on the number
 of degrees

---
 mass/core/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 596642a..c1806ec 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2126,7 +2126,8 @@ class MicrocalDataSet:  # noqa: PLR0904
             pk = np.median(attr[g])
             g = np.logical_and(g, np.abs(attr[:] / pk - 1) < 0.5)
             w = max(pk / 3000., 1.0)
-            info = time_drift_correct(self.p_timestamp[g], attr[g], w,
+            info = time_drift_correct(self.p_timestamp[g], attr[g], w, sec_per_degree=sec_per_degree,
+                                      pulses_per_degree=pulses_per_degree, max_degrees=max_degrees,
                                       limit=[0.5 * pk, 2 * pk])
             tnorm = info["normalize"](self.p_timestamp[:])
             corrected = attr[:] * (1 + info["model"](tnorm))
-- 
2.43.0


From 1f8777d2b3ce3dbbcee069c1ac08f9894ecf2b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:49 +0000
Subject: [PATCH 128/193] fix: phase correction when some range of phases has
 no pulses

---
 mass/core/phase_correct.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mass/core/phase_correct.py b/mass/core/phase_correct.py
index 6b9f5a4..ebb4164 100644
--- a/mass/core/phase_correct.py
+++ b/mass/core/phase_correct.py
@@ -178,6 +178,13 @@ def _phasecorr_find_alignment(phase_indicator, pulse_heights, peak, delta_ph,  #
         bin_edge[-1] += dx
         bins = np.digitize(x, bin_edge) - 1
 
+        # Empty bins have no median phase and tell us nothing.
+        used = np.unique(bins[np.logical_and(bins >= 0, bins < NBINS)])
+        if len(used) < 2:
+            return CubicSpline([-1, 1], [peak, peak]), median_phase
+        bins = np.where(bins < 0, -1, np.searchsorted(used, bins))
+        NBINS = len(used)
+
         knots = np.zeros(NBINS, dtype=float)
         yknot = np.zeros(NBINS, dtype=float)
         iter1 = 0
-- 
2.43.0


From 8fb3d14f3ddd2471dd1f51934d53f03e0de5387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:17 +0000
Subject: [PATCH 129/193] fix: read back the stored optimal filter, rather than
 compute another

A 5-lag filter was recomputed from the average pulse when its file was reopened,
without the cut_pre and cut_post it was made with. Arrival-time-safe filters came
back without their constant-level weights and models, and thus couldn't be used
for making projectors.
---
 mass/core/channel.py | 48 +++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index c1806ec..93cdff0 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -804,26 +804,23 @@ class MicrocalDataSet:  # noqa: PLR0904
                                     sample_time_sec=self.timebase, peak=modelpeak)
                 self.filter = maker.compute_ats(fmax=fmax, f_3db=f_3db)
         if version == 2:
-            if filter_type == "ats":
-                values = filter_group["values"][:]
-                dt_values = filter_group["dt_values"][:]
-                variance = filter_group["values"].attrs.get("variance", 0.0)
-                vdv = filter_group["values"].attrs.get("predicted_v_over_dv", 0.0)
-                peak = filter_group["values"].attrs.get("nominal_peak", 0.0)
-                self.filter = mass.Filter(values, peak, variance, vdv, dt_values, None, None, None,
-                                          1, fmax=fmax, f_3db=f_3db, _filter_type="ats")
-
-            else:
-                modelpeak = np.max(self.average_pulse)
-                maker = FilterMaker(self.average_pulse[:], self.nPresamples - self.pretrigger_ignore_samples,
-                                    self.noise_autocorr, self.noise_psd,
-                                    sample_time_sec=self.timebase, peak=modelpeak)
-                if filter_type == "5lag":
-                    self.filter = maker.compute_5lag(fmax=fmax, f_3db=f_3db)
-                elif filter_type == "fourier":
-                    self.filter = maker.compute_fourier(fmax=fmax, f_3db=f_3db)
-                else:
-                    raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+            if filter_type not in {"ats", "5lag", "fourier"}:
+                raise Exception(f"filter_type={filter_type}, must be `ats`, `5lag`, or `fourier`")
+
+            def vector_or_none(name):
+                return filter_group[name][:] if name in filter_group else None
+
+            values = filter_group["values"][:]
+            variance = filter_group["values"].attrs.get("variance", 0.0)
+            vdv = filter_group["values"].attrs.get("predicted_v_over_dv", 0.0)
+            peak = filter_group["values"].attrs.get("nominal_peak", 0.0)
+            convolution_lags = 1 if filter_type == "ats" else 5
+            cut_pre = int(filter_group.attrs.get("cut_pre", 0))
+            cut_post = int(filter_group.attrs.get("cut_post", 0))
+            self.filter = mass.Filter(values, peak, variance, vdv, vector_or_none("dt_values"),
+                                      vector_or_none("const_values"), vector_or_none("signal_model"),
+                                      vector_or_none("dt_model"), convolution_lags, fmax=fmax, f_3db=f_3db,
+                                      cut_pre=cut_pre, cut_post=cut_post, _filter_type=filter_type)
 
         self._filter_type = filter_type
 
@@ -1168,15 +1165,16 @@ class MicrocalDataSet:  # noqa: PLR0904
             h5grp.attrs['fmax'] = self.filter.fmax
         h5grp.attrs['filter_type'] = self.filter._filter_type
         h5grp.attrs["version"] = 2
-        for name in ("values", "dt_values"):
-            if name in h5grp:
-                del h5grp[name]
+        h5grp.attrs["cut_pre"] = self.filter.cut_pre
+        h5grp.attrs["cut_post"] = self.filter.cut_post
         vec = h5grp.create_dataset("values", data=self.filter.values)
         vec.attrs["nominal_peak"] = self.filter.nominal_peak
         vec.attrs["variance"] = self.filter.variance
         vec.attrs["predicted_v_over_dv"] = self.filter.predicted_v_over_dv
-        if self.filter._filter_type == "ats":
-            h5grp.create_dataset("dt_values", data=self.filter.dt_values)
+        for name in ("dt_values", "const_values", "signal_model", "dt_model"):
+            vector = getattr(self.filter, name)
+            if vector is not None:
+                h5grp.create_dataset(name, data=vector)
 
     @property
     def shortname(self):
-- 
2.43.0


From 3c4d9896278812088bc64b69052313a81736c871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:41 +0000
Subject: [PATCH 130/193] fix: remember the settings of summarize_data when a
 data set is reopened

The peak time (when the user gave it), the number of pretrigger samples to ignore,
and the samples cut from either end of the records were lost, so average pulses,
filters, and automatic cuts made after reopening a file differed.
---
 mass/core/channel.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 93cdff0..2eeb7a1 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -600,6 +600,8 @@ class MicrocalDataSet:  # noqa: PLR0904
     expected_attributes = ("nSamples", "nPresamples", "nPulses", "timebase", "channum",
                            "timestamp_offset", "subframe_divisions", "subframe_offset")
     HDF5_CHUNK_SIZE = 256
+    # Choices made in summarize_data() that later steps of the analysis also use.
+    SUMMARY_SETTINGS = ("pretrigger_ignore_samples", "cut_pre", "cut_post")
 
     @property
     def invert_data(self):
@@ -759,6 +761,9 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         if "peak_samplenumber" in self.p_peak_index.attrs:
             self.peak_samplenumber = self.p_peak_index.attrs["peak_samplenumber"]
+        for name in self.SUMMARY_SETTINGS:
+            if name in self.p_pretrig_mean.attrs:
+                setattr(self, name, int(self.p_pretrig_mean.attrs[name]))
 
         # Other vectors needed per-channel
         self.average_pulse = h5grp.require_dataset(
@@ -971,6 +976,12 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.cut_pre = cut_pre
         self.cut_post = cut_post
 
+        # Store the choices, so they are known when this data set is next opened
+        for name in self.SUMMARY_SETTINGS:
+            self.p_pretrig_mean.attrs[name] = getattr(self, name)
+        if self.peak_samplenumber is not None:
+            self.p_peak_index.attrs["peak_samplenumber"] = self.peak_samplenumber
+
         if use_cython:
             if self.peak_samplenumber is None:
                 self._compute_peak_samplenumber()
-- 
2.43.0


From 9f3afe6d8f873270b8e90699959edf84a66362ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:41 +0000
Subject: [PATCH 131/193] fix: know the subframe time without summarizing the
 data again

Cuts on subframecount_diff_sec failed on data that had been summarized before the
file was reopened.
---
 mass/core/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2eeb7a1..2cb7526 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -655,6 +655,8 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         for a in self.expected_attributes:
             setattr(self, a, pulserec_dict[a])
+        if self.subframe_divisions:
+            self.subframe_timebase = self.timebase / float(self.subframe_divisions)
         self.filename = pulserec_dict.get('filename', 'virtual data set')
         self.pretrigger_ignore_samples = 0  # Cut this long before trigger in computing pretrig values
         self.cut_pre = 0  # Number of presamples to ignore at start of pulse
-- 
2.43.0


From 5e13cbe2ea3928dbe505294826303fb51abcb526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:41 +0000
Subject: [PATCH 132/193] fix: load the stored drift correction when a data set
 is reopened

---
 mass/core/channel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 2cb7526..dff31d0 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -844,7 +844,9 @@ class MicrocalDataSet:  # noqa: PLR0904
             self.calibration[k] = EnergyCalibration.load_from_hdf5(hdf5_cal_group, k)
 
     def __load_corrections(self):
-        # drift correction should be loaded here, but I don't think it is loaded at all, here or anywhere!
+        for k in ("type", "slope", "median_pretrig_mean"):
+            if k in self.p_filt_value_dc.attrs:
+                self.drift_correct_info[k] = self.p_filt_value_dc.attrs[k]
         if "phase_correction" in self.hdf5_group:
             self.phaseCorrector = phase_correct.PhaseCorrector.fromHDF5(
                 self.hdf5_group, name="phase_correction")
-- 
2.43.0


From ae611437c70b589d5fe856d21b588d85e6aaf90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:06 +0000
Subject: [PATCH 133/193] fix: complete an interrupted summarize_data or
 filter_data when run again

If interrupted (or stopped by an error) after the first segment of the data, they
appeared to be done, and the remaining pulses kept their zeros.
---
 mass/core/channel.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index dff31d0..63d1e5d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -959,7 +959,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             setattr(self, name, getattr(self.pulse_records.datafile, name))
         self.subframe_timebase = self.timebase / float(self.subframe_divisions)
 
-        not_done = all(self.p_pretrig_mean[:] == 0)
+        not_done = all(self.p_pretrig_mean[:] == 0) or "incomplete" in self.p_pretrig_mean.attrs
         if not (not_done or forceNew):
             LOG.info('\nchan %d did not summarize because results were already preloaded', self.channum)
             return
@@ -980,6 +980,9 @@ class MicrocalDataSet:  # noqa: PLR0904
         self.cut_pre = cut_pre
         self.cut_post = cut_post
 
+        # If the following is interrupted, then it has to be done again.
+        self.p_pretrig_mean.attrs["incomplete"] = True
+
         # Store the choices, so they are known when this data set is next opened
         for name in self.SUMMARY_SETTINGS:
             self.p_pretrig_mean.attrs[name] = getattr(self, name)
@@ -1023,6 +1026,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 MicrocalDataSet._summarize_data_segment(self, idx_slice, doPretrigFit=doPretrigFit)
                 yield (segnum + 1.0) / self.pulse_records.n_segments
 
+        del self.p_pretrig_mean.attrs["incomplete"]
         self.hdf5_group.file.flush()
         self.__parse_expt_states()
 
@@ -1355,7 +1359,8 @@ class MicrocalDataSet:  # noqa: PLR0904
                 before filtering (default None)
             forceNew: Whether to recompute when already exists (default False)
         """
-        if not (forceNew or all(self.p_filt_value[:] == 0)):
+        not_done = all(self.p_filt_value[:] == 0) or "incomplete" in self.p_filt_value.attrs
+        if not (forceNew or not_done):
             LOG.info('chan %d did not filter because results were already loaded', self.channum)
             return
 
@@ -1376,6 +1381,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             fv, fp = fdata(self.alldata, filter_values)
             self.p_filt_value[:] = fv[:]
             self.p_filt_phase[:] = fp[:]
+            self.p_filt_value.attrs.pop("incomplete", None)
             self.hdf5_group.file.flush()
             return
 
@@ -1399,6 +1405,8 @@ class MicrocalDataSet:  # noqa: PLR0904
         else:
             raise ValueError(f"filter_type={self._filter_type}, must be `ats` or `5lag`")
 
+        # If the following is interrupted, then it has to be done again.
+        self.p_filt_value.attrs["incomplete"] = True
         for s in range(self.pulse_records.n_segments):
             first = s * self.pulse_records.pulses_per_seg
             end = min(self.nPulses, first + self.pulse_records.pulses_per_seg)
@@ -1407,6 +1415,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 filterfunction(filter_values, filter_AT, first, end, transform)
             yield (end + 1) / float(self.nPulses)
 
+        del self.p_filt_value.attrs["incomplete"]
         self.hdf5_group.file.flush()
 
     def get_pulse_model(self, f, f_5lag, n_basis, pulses_for_svd, extra_n_basis_5lag=0,
-- 
2.43.0


From 171aa1eefe4b61941c3a81d10b1cfc2f5368e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:47 +0000
Subject: [PATCH 134/193] fix: don't keep an optimal filter that is rejected
 for its NaN values

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 63d1e5d..029ac42 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1341,11 +1341,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         maker = FilterMaker(model[:, 0], self.nPresamples, self.noise_autocorr,
                             dt_model=model[:, 1], sample_time_sec=self.timebase, peak=modelpeak)
         f = maker.compute_ats(fmax=fmax, f_3db=f_3db, cut_pre=cut_pre, cut_post=cut_post)
-        self.filter = f
         if np.any(np.isnan(f.values)) or np.any(np.isnan(f.dt_values)):
             raise Exception("{}. model {}, nPresamples {}, noise_autcorr {}, timebase {}, modelpeak {}".format(
                 "there are nan values in your filters!! BAD",
                 model, self.nPresamples, self.noise_autocorr, self.timebase, modelpeak))
+        self.filter = f
         self._filter_type = f._filter_type
         self._filter_to_hdf5()
         return f
-- 
2.43.0


From 539d142c553f8b83291a59c97974fa412369caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:13 +0000
Subject: [PATCH 135/193] fix: a failed phase_correct doesn't count as done

---
 mass/core/channel.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 029ac42..ef73b25 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -1878,14 +1878,16 @@ class MicrocalDataSet:  # noqa: PLR0904
             return
         good = self.cuts.good(**category)
 
-        self.phaseCorrector = phase_correct.phase_correct(self.p_filt_phase[good],
-                                                          getattr(self, attr)[good],
-                                                          ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
-                                                          indicatorName="p_filt_phase", uncorrectedName=attr)
+        phaseCorrector = phase_correct.phase_correct(self.p_filt_phase[good],
+                                                     getattr(self, attr)[good],
+                                                     ph_peaks=ph_peaks, method2017=method2017, kernel_width=kernel_width,
+                                                     indicatorName="p_filt_phase", uncorrectedName=attr)
 
+        corrected = phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
         self.p_filt_phase_corr[:] = self.p_filt_phase[:] - \
-            self.phaseCorrector.phase_uniformifier(getattr(self, attr)[:])
-        self.p_filt_value_phc[:] = self.phaseCorrector(self.p_filt_phase[:], getattr(self, attr)[:])
+            phaseCorrector.phase_uniformifier(getattr(self, attr)[:])
+        self.p_filt_value_phc[:] = corrected
+        self.phaseCorrector = phaseCorrector
 
         if save_to_hdf5:
             self.phaseCorrector.toHDF5(self.hdf5_group, overwrite=True)
-- 
2.43.0


From e18e5a2eb348cb3da7502e7d898d4dd1b1943c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:36 +0000
Subject: [PATCH 136/193] fix: store any text as the reason why a channel is
 bad

---
 mass/core/channel_group.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 2027bb0..5ab3b71 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -273,8 +273,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                         hdf5_cal_grp, cal_name)
 
             if 'why_bad' in hdf5_group.attrs:
-                self._bad_channums[dset.channum] = [comment.decode() for comment in
-                                                    hdf5_group.attrs['why_bad']]
+                self._bad_channums[dset.channum] = self._load_why_bad(hdf5_group)
 
             # If appropriate, add to the MicrocalDataSet the NoiseRecords file interface
             if self.noise_filenames is not None:
@@ -450,8 +449,15 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             new_comment = self._bad_channums.get(channum, []) + [comment]
             self._bad_channums[channum] = new_comment
             LOG.warning('WARNING: Chan %s flagged bad because %s', channum, comment)
-            self.hdf5_file[f"chan{channum}"].attrs['why_bad'] = \
-                np.asarray(new_comment, dtype=np.bytes_)
+            # Variable-length strings can be of any length, and contain any character
+            self.hdf5_file[f"chan{channum}"].attrs.create(
+                'why_bad', new_comment, dtype=h5py.string_dtype())
+
+    @staticmethod
+    def _load_why_bad(hdf5_group):
+        """Returns the list of comments stored in `hdf5_group` by `set_chan_bad`."""
+        return [comment.decode() if isinstance(comment, bytes) else comment
+                for comment in hdf5_group.attrs['why_bad']]
 
     def set_all_chan_good(self):
         """Set all channels to be good."""
-- 
2.43.0


From a137021bff4c180880582176491696276dec17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:36 +0000
Subject: [PATCH 137/193] fix: set_chan_bad rejects unknown channels before it
 marks any

---
 mass/core/channel_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 5ab3b71..422ada5 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -444,6 +444,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         added_to_list = set.union(*[set(x) if isinstance(x, Iterable)
                                     else {x} for x in args if not isstr(x)])
         comment = reduce(lambda x, y: y, [x for x in args if isstr(x)], '')
+        unknown = [channum for channum in added_to_list if channum not in self.channel]
+        if unknown:
+            raise KeyError(f"channels {unknown} are not in this group")
 
         for channum in added_to_list:
             new_comment = self._bad_channums.get(channum, []) + [comment]
-- 
2.43.0


From 9e21a23ad26b471bed29c25d1f409c16d5d9dfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:36 +0000
Subject: [PATCH 138/193] fix: noise-only groups remember their bad channels

---
 mass/core/channel_group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 422ada5..8c0209f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -344,6 +344,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise_list.append(noise)
             dset_list.append(dset)
 
+            if 'why_bad' in hdf5_group.attrs:
+                self._bad_channums[dset.channum] = self._load_why_bad(hdf5_group)
+
             if self.n_segments == 0:
                 for attr in ("nSamples", "nPresamples", "timebase"):
                     self.__dict__[attr] = noise.__dict__[attr]
-- 
2.43.0


From 6f573cf4bb80603a6457ce52fa3b0bea4a3bcdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:36 +0000
Subject: [PATCH 139/193] fix: n_channels doesn't count the files that are
 skipped

---
 mass/core/channel_group.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 8c0209f..67d3ecb 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -272,9 +272,6 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                     dset.calibration[cal_name] = EnergyCalibration.load_from_hdf5(
                         hdf5_cal_grp, cal_name)
 
-            if 'why_bad' in hdf5_group.attrs:
-                self._bad_channums[dset.channum] = self._load_why_bad(hdf5_group)
-
             # If appropriate, add to the MicrocalDataSet the NoiseRecords file interface
             if self.noise_filenames is not None:
                 nf = self.noise_filenames[i]
@@ -297,6 +294,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
             pulse_list.append(pulse)
             dset_list.append(dset)
+            if 'why_bad' in hdf5_group.attrs:
+                self._bad_channums[dset.channum] = self._load_why_bad(hdf5_group)
 
             if self.n_segments == 0:
                 for attr in ("nSamples", "nPresamples", "timebase"):
@@ -319,6 +318,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         self.channels = tuple(pulse_list)
         self.noise_channels = tuple(noise_list)
         self.datasets = tuple(dset_list)
+        self.n_channels = len(self.datasets)  # fewer than the files, if any were skipped
 
         for index, (pr, ds) in enumerate(zip(self.channels, self.datasets)):
             ds.pulse_records = pr
-- 
2.43.0


From b6d60c8b1bf4032288e4d9b9f0193c1558c04021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:26 +0000
Subject: [PATCH 140/193] fix: group compute_noise_spectra marks a failing
 channel bad and goes on

---
 mass/core/channel_group.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 67d3ecb..cdc8a2d 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -510,8 +510,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         """Replaced by the equivalent compute_noise(...)"""
         # This is needed because the @_add_group_loop decorator does not preserve warnings
         # and hand them up.
-        for ds in self:
-            ds.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
+        self.compute_noise(max_excursion=max_excursion, forceNew=forceNew)
 
     def sample2segnum(self, samplenum):
         """Returns the segment number of sample number <samplenum>."""
-- 
2.43.0


From a8d54d1e7f425c3a8a276991cb0c7a5c20e36305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 141/193] fix: group qualityCheckLinefit when some or all fits
 fail

---
 mass/off/channels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 2074800..4910069 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1359,7 +1359,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
                                             _rethrow=_rethrow)
         resolutions = np.array([r.params["fwhm"].value
                                 for r in results.values() if r.success])
-        if resolutionPlot:
+        if resolutionPlot and len(resolutions) > 0:
             plt.figure()
             axis = plt.gca()
             axis.hist(resolutions, bins=np.arange(0, np.amax(resolutions) + 0.25, 0.25))
@@ -1376,7 +1376,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
                         result = results[channum]
                         for (k, v) in result.params.items():
                             grp[k] = v.value
-                            grp[k + "_err"] = v.stderr
+                            grp[k + "_err"] = np.nan if v.stderr is None else v.stderr
                         grp["states"] = str(states)
         return results
 
-- 
2.43.0


From e976030848ad10c70940d34a7c7a0beec839b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:25 +0000
Subject: [PATCH 142/193] fix: group histsToHDF5 marks a failing channel bad
 and goes on

---
 mass/off/channels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 4910069..d31a382 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1323,9 +1323,9 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         self._includeBadDesired = False
 
     def histsToHDF5(self, h5File, binEdges, attr="energy", cutRecipeName=None):
-        for (channum, ds) in self.items():
-            usedCutRecipeName = self._handleDefaultCut(cutRecipeName)
-            ds.histsToHDF5(h5File, binEdges, attr, usedCutRecipeName)
+        usedCutRecipeName = self._handleDefaultCut(cutRecipeName)
+        # This uses the method created by GroupLooper
+        self._histsToHDF5(h5File, binEdges, attr, usedCutRecipeName)
         grp = h5File.require_group("all_channels")
         for state in self.stateLabels:  # hist for each state
             binCenters, counts = self.hist(binEdges, attr, state, usedCutRecipeName)
-- 
2.43.0


From e20d991081d6d35ed6a9a64d45775119329b4280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:01 +0000
Subject: [PATCH 143/193] fix: ljh2off keeps the exact microsecond times

---
 mass/core/ljh2off.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index f5e2608..275de3c 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -96,7 +96,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         records_written += records_this_seg
 
         data = ljhfile.alldata[idx_lo:idx_lo + rec_per_seg]
-        timestamps = ljhfile.datatimes_float[idx_lo:idx_hi]
+        timestamps_usec = np.asarray(ljhfile.datatimes_raw[idx_lo:idx_hi], dtype=np.int64)
         subframecounts = ljhfile.subframecount[idx_lo:idx_hi]
         projector_record_length = projectors.shape[1]
         data_record_length = data.shape[1]
@@ -117,7 +117,7 @@ def ljh_records_to_off(ljhfile, f, projectors, basis, n_ignore_presamples, dtype
         offdata["recordSamples"] = ljhfile.nSamples
         offdata["recordPreSamples"] = ljhfile.nPresamples
         offdata["framecount"] = subframecounts // ljhfile.subframe_divisions
-        offdata["unixnano"] = timestamps * 1e9
+        offdata["unixnano"] = timestamps_usec * 1000
         offdata["pretriggerMean"] = pretrig_mean
         offdata["pretriggerDelta"] = pt_delta
         offdata["residualStdDev"] = residual_std_dev
-- 
2.43.0


From 2418943b3cbbbe12afac32e85bc8b8269f2b3fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:01 +0000
Subject: [PATCH 144/193] fix: ljh2off writes the subframe divisions to the OFF
 header

---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 275de3c..aaca4a5 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -46,7 +46,8 @@ def off_header_dict_from_ljhfile(ljhfile, projectors, basis, h5_path):
         "ColumnsNum": ljhfile.column_number,
         "RowNum": ljhfile.row_number,
         "NumberOfColumns": ljhfile.number_of_columns,
-        "NumberOfRows": ljhfile.number_of_rows
+        "NumberOfRows": ljhfile.number_of_rows,
+        "SubframeDivsions": ljhfile.subframe_divisions  # as spelled in the OFF reader
     }
     d["CreationInfo"] = {
         "SourceName": "ljh2off.py"
-- 
2.43.0


From a6a38fa7910f02b0c906c486f08e20f1eb28e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:02 +0000
Subject: [PATCH 145/193] fix: ljh2off always writes projectors and basis as
 float64

---
 mass/core/ljh2off.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index aaca4a5..4882c26 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -71,8 +71,8 @@ def multi_ljh2off(ljhpaths, offpath, projectors, basis, n_ignore_presamples, h5_
     with open(offpath, "wb") as f:  # opening in binary form prevents windows from messing up newlines
         f.write(off_header_string_from_ljhfile(
             ljhfile0, projectors, basis, h5_path).encode('utf-8'))
-        projectors.tofile(f)
-        basis.tofile(f)
+        np.asarray(projectors, dtype=np.float64).tofile(f)
+        np.asarray(basis, dtype=np.float64).tofile(f)
         n = ljh_records_to_off(ljhfile0, f, projectors, basis, n_ignore_presamples, dtype)
         assert n == ljhfile0.nPulses, "wrong number of records written"
         for ljhpath in ljhpaths[1:]:
-- 
2.43.0


From a7dbf29002d789334b6936623cd8c9b57c1303b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:02 +0000
Subject: [PATCH 146/193] fix: multi_ljh2off_loop skips the LJH files that do
 not exist

---
 mass/core/ljh2off.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/ljh2off.py b/mass/core/ljh2off.py
index 4882c26..48d91ab 100644
--- a/mass/core/ljh2off.py
+++ b/mass/core/ljh2off.py
@@ -139,7 +139,8 @@ def multi_ljh2off_loop(ljhbases, h5_path, off_basename, max_channels, n_ignore_p
     for channum, pulse_model in pulse_model_dict.items():
         ljhpaths = [f'{ljhbase}_chan{channum}.ljh' for ljhbase in ljhbases]
         offpath = f'{off_basename}_chan{channum}.off'
-        if not any([os.path.isfile(ljhpath) for ljhpath in ljhpaths]):
+        ljhpaths = [ljhpath for ljhpath in ljhpaths if os.path.isfile(ljhpath)]
+        if len(ljhpaths) == 0:
             continue  # make sure at least one of the desired files exists
         multi_ljh2off(ljhpaths, offpath, pulse_model.projectors,
                       pulse_model.basis, n_ignore_presamples, h5_path)
-- 
2.43.0


From 640ec7b108f3c1b1d11fdf6e5b4dfe7211645b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:02 +0000
Subject: [PATCH 147/193] fix: saving an inverted pulse model leaves the model
 unchanged

---
 mass/core/pulse_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 7049693..90fafeb 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -51,7 +51,7 @@ class PulseModel:
         self.noise_autocorr = noise_autocorr
 
     def toHDF5(self, hdf5_group, save_inverted):
-        projectors, basis = self.projectors[()], self.basis[()]
+        projectors, basis = np.array(self.projectors), np.array(self.basis)  # copies, to be changed
         if save_inverted:
             # flip every component except the mean component if data is being inverted
             basis[:, 1:] *= -1
-- 
2.43.0


From 02dd7b5a2274e287bfb9735b7ff149401b2de8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:02 +0000
Subject: [PATCH 148/193] fix: pulse model labels name every 5-lag component

---
 mass/core/pulse_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 90fafeb..84b818d 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -138,8 +138,8 @@ class PulseModel:
     def labels(self):
         labels = ["const", "deriv", "pulse"]
         for i in range(self.n_basis - 3):
-            if i > self.n_basis - 3 - self.extra_n_basis_5lag:
-                labels += [f"5lag{i + 2 - self.extra_n_basis_5lag}"]
+            if i >= self.n_basis - 3 - self.extra_n_basis_5lag:
+                labels += [f"5lag{i - (self.n_basis - 3 - self.extra_n_basis_5lag)}"]
             else:
                 labels += [f"svd{i}"]
         return labels
-- 
2.43.0


From e9c90a5cff9dcfe64ba8546e523d1546d0632429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:02 +0000
Subject: [PATCH 149/193] fix: pulse model projectors invert the basis for
 low-rank training data

---
 mass/core/pulse_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/pulse_model.py b/mass/core/pulse_model.py
index 84b818d..8188868 100644
--- a/mass/core/pulse_model.py
+++ b/mass/core/pulse_model.py
@@ -127,6 +127,11 @@ class PulseModel:
         residuals = pulses_for_svd - mp
         Q = mass.mathstat.utilities.find_range_randomly(residuals, n_basis - n_existing)
 
+        # If the residuals have rank less than needed, then some columns of Q are arbitrary. Remove what
+        # the existing projectors see of them, so that they don't add to the existing coefficients.
+        for _ in range(2):
+            Q, _R = np.linalg.qr(Q - np.matmul(basis, np.matmul(projectors, Q)))
+
         projectors2 = np.linalg.pinv(Q)  # = Q.T, perhaps??
         projectors2 -= projectors2.dot(basis).dot(projectors)
 
-- 
2.43.0


From 239e32e7e95d8c680f65f3443c0f48e7d9904b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:02 +0000
Subject: [PATCH 150/193] fix: pulse_model_to_hdf5 allows chan anywhere in the
 path

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index cdc8a2d..56e10da 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -582,7 +582,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if category is None:
             category = {}
         if hdf5_file is None:
-            basename, _ = self.datasets[0].filename.split("chan")
+            basename, _ = self.datasets[0].filename.rsplit("chan", 1)
             hdf5_filename = basename + "model.hdf5"
             if os.path.isfile(hdf5_filename):
                 if not replace_output:
-- 
2.43.0


From c7d482e71741d036e73eb87f0f084c1d77355e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 151/193] fix: NISTXrayDBFile does not hang on a file without
 the table header

---
 mass/calibration/nist_xray_database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mass/calibration/nist_xray_database.py b/mass/calibration/nist_xray_database.py
index b7aae9b..b00300d 100644
--- a/mass/calibration/nist_xray_database.py
+++ b/mass/calibration/nist_xray_database.py
@@ -58,8 +58,7 @@ class NISTXrayDBFile:
                 print(f"'{filename}' is not a readable file with X-ray database info! Continuing...")
                 continue
 
-            while True:
-                line = fp.readline()
+            for line in fp:
                 if "Theory" in line and "Blend" in line and "Ref." in line:
                     break
 
-- 
2.43.0


From 781bb03a6c635e2d216ff2cc3bc741520a128d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 152/193] fix: look up NIST x-ray lines by nickname, whatever
 the case

---
 mass/calibration/nist_xray_database.py | 29 +++++++++++++-------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/mass/calibration/nist_xray_database.py b/mass/calibration/nist_xray_database.py
index b00300d..7ded248 100644
--- a/mass/calibration/nist_xray_database.py
+++ b/mass/calibration/nist_xray_database.py
@@ -88,17 +88,20 @@ class NISTXrayDBFile:
         'LG1': 'L2N4',
     }
 
+    @classmethod
+    def _resolve_nickname(cls, linetype):
+        """Return the transition, e.g., "KL3", for a transition or a nickname such as "KA1" or "KAlpha1".
+        Upper and lower case are not distinguished."""
+        linetype = linetype.upper()
+        for greek in ("ALPHA", "BETA", "GAMMA"):
+            linetype = linetype.replace(greek, greek[0])
+        nicknames = {nickname.upper(): transition for nickname, transition in cls.LINE_NICKNAMES.items()}
+        return nicknames.get(linetype, linetype)
+
     def get_lines_by_type(self, linetype):
         """Return a tuple containing all lines of a certain type, e.g., "KL3".
         See self.LINE_NICKNAMES for some known line "nicknames"."""
-        linetype = linetype.upper()
-        if "ALPHA" in linetype:
-            linetype = linetype.replace("ALPHA", "A")
-        elif "BETA" in linetype:
-            linetype = linetype.replace("BETA", "B")
-        elif "GAMMA" in linetype:
-            linetype = linetype.replace("GAMMA", "G")
-        linetype = self.LINE_NICKNAMES.get(linetype, linetype)
+        linetype = self._resolve_nickname(linetype)
         lines = []
         for element in ELEMENTS:
             linename = f'{element} {linetype}'
@@ -113,13 +116,9 @@ class NISTXrayDBFile:
         key = f'{element} {line}'
         if key in self.lines:
             return self.lines[key]
-        lcline = line.lower()
-        lcline = lcline.replace('alpha', 'a')
-        lcline = lcline.replace('beta', 'b')
-        lcline = lcline.replace('gamma', 'g')
-        if lcline in self.LINE_NICKNAMES:
-            key = f"{element} {self.LINE_NICKNAMES[lcline]}"
-            return self.lines[key]
+        nickname_key = f"{element} {self._resolve_nickname(line)}"
+        if nickname_key in self.lines:
+            return self.lines[nickname_key]
         raise KeyError(f"{key} is not a known line or line nickname")
 
 
-- 
2.43.0


From f0ceda9516aaaab683d99862235efe72ac4bb20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 153/193] fix: import_asd iterates over elements and charge
 states with their names

---
 mass/calibration/import_asd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/import_asd.py b/mass/calibration/import_asd.py
index a12d981..720b2c3 100644
--- a/mass/calibration/import_asd.py
+++ b/mass/calibration/import_asd.py
@@ -40,8 +40,8 @@ def write_asd_pickle(inputFilename, outputFilename):
 
     # Sort levels within an element/charge state by energy
     outputDict = {}
-    for iElement, element in energyLevelsDict.values():
-        for iCharge, chargestate in element.values():
+    for iElement, element in energyLevelsDict.items():
+        for iCharge, chargestate in element.items():
             energyOrder = np.argsort(np.array(list(chargestate.values()))[:, 0])
             orderedKeys = np.array(list(chargestate.keys()))[energyOrder]
             orderedValues = np.array(list(chargestate.values()))[energyOrder]
-- 
2.43.0


From 0e184b488279c48c8e244bf203055c8d4267422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 154/193] fix: import_asd reads INSERT statements with a single
 row

---
 mass/calibration/import_asd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/import_asd.py b/mass/calibration/import_asd.py
index 720b2c3..a6aa059 100644
--- a/mass/calibration/import_asd.py
+++ b/mass/calibration/import_asd.py
@@ -57,7 +57,7 @@ def write_asd_pickle(inputFilename, outputFilename):
 
 
 def parseLine(energyLevelsDict, fieldNamesDict, formattedLine):
-    lineAsArray = np.array(ast.literal_eval(formattedLine))
+    lineAsArray = np.array(ast.literal_eval(f'[{formattedLine}]'))
     for iEntry in lineAsArray:
         element = iEntry[fieldNamesDict['ASD_Levels'].index('element')]
         spectr_charge = int(iEntry[fieldNamesDict['ASD_Levels'].index('spectr_charge')])
-- 
2.43.0


From 5e3f84839e0d19544a635ecb2268ec42e98f87cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:43 +0000
Subject: [PATCH 155/193] fix: hci_models can add a linear background to a
 composite model again

---
 mass/calibration/line_models.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index 607e9cc..a597e37 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -251,6 +251,19 @@ class CompositeMLEModel(MLEModel, lmfit.CompositeModel):
         return CompositeMLEModel(self, other, lmfit.model.operator.truediv)
 
 
+class LinearBackgroundModel(MLEModel):
+    """A linear background alone (counts per bin, and its slope in counts per bin per bin), to be added to other models."""
+
+    def __init__(self, independent_vars=['bin_centers'], prefix='', nan_policy='raise', **kwargs):
+        def modelfunc(bin_centers, background=0, bg_slope=0):
+            return _scale_add_bg(np.zeros(len(bin_centers)), 0, background, bg_slope)
+        kwargs.update({'prefix': prefix, 'nan_policy': nan_policy,
+                       'independent_vars': independent_vars, 'param_names': ["background", "bg_slope"]})
+        super().__init__(modelfunc, **kwargs)
+        self.set_param_hint('background', value=1, min=0)
+        self.set_param_hint('bg_slope', value=0, vary=False)
+
+
 class GenericLineModel(MLEModel):
     def __init__(self, spect, independent_vars=['bin_centers'], prefix='', nan_policy='raise',
                  has_linear_background=True, has_tails=False, qemodel=None, **kwargs):
-- 
2.43.0


From 658155dbf0af781e4a848f4cbd8a29c5b7741b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:40 +0000
Subject: [PATCH 156/193] fix: read the neighbors list with current h5py in
 flag_crosstalking_pulses

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index ef73b25..549767a 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2423,7 +2423,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                     # Loop through nearest neighbor categories
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][:]
                         # Remove duplicates, sort
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
@@ -2439,7 +2439,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                     for neighborCategory in self.hdf5_group[nn_channel_key]:
                         categoryField = str(crosstalk_key + '_' + neighborCategory)
                         subgroupName = nn_channel_key + '/' + neighborCategory
-                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'].value
+                        subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][:]
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
                         if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
-- 
2.43.0


From 4b2814e2793dfb8e6608c17a0e495298021f7e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 157/193] fix: find the neighbors that have data in
 flag_crosstalking_pulses

---
 mass/core/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 549767a..e9f530c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2429,7 +2429,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
                         combinedNearestNeighbors = np.unique(
                             np.append(combinedNearestNeighbors, selectNeighbors).astype(int))
-                    if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                    if np.any(np.isin(list(self.tes_group.channel), combinedNearestNeighbors)):
                         h5grp[crosstalk_key][:] = crosstalk_flagging_loop(combinedNearestNeighbors)
                     else:
                         msg = f"Channel {self.channum} skipping crosstalk cuts: no nearest neighbors matching criteria"
@@ -2442,7 +2442,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                         subgroupNeighbors = self.hdf5_group[subgroupName + '/neighbors_list'][:]
                         selectNeighbors = subgroupNeighbors[:, 0][np.isin(
                             subgroupNeighbors[:, 2], nearestNeighborsDistances)]
-                        if np.sum(np.isin(self.tes_group.channel.keys(), selectNeighbors)) > 0:
+                        if np.any(np.isin(list(self.tes_group.channel), selectNeighbors)):
                             LOG.info(f'Checking crosstalk between channel {self.channum} and {neighborCategory} neighbors...')
                             h5grp[categoryField][:] = crosstalk_flagging_loop(selectNeighbors)
                             h5grp[crosstalk_key][:] = np.logical_or(
-- 
2.43.0


From 909e293e6ead2ff9f86cd809fcb17c9fe05d5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 158/193] fix: flag crosstalk of pulses whose veto windows
 overlap

---
 mass/core/channel.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e9f530c..a87bd05 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2376,12 +2376,11 @@ class MicrocalDataSet:  # noqa: PLR0904
                 # Combine the pulses from all neighboring channels into a single array
                 compareChannelsPulsesList = np.append(compareChannelsPulsesList,
                                                       dsToCompare.p_subframecount[:] * dsToCompare.subframe_timebase)
-            # Create a histogram of the neighboring channel pulses using the bin edges from the channel you are flagging
-            hist, _bin_edges = np.histogram(compareChannelsPulsesList, bins=combinedEdges)
-            # Even corresponds to bins with a photon in channel 1 (crosstalk), odd are empty bins (no crosstalk)
-            badCountsHist = hist[::2]
-            # Even only histogram indices map directly to previously good flagged pulse indices for victim channel
-            crosstalking_pulses = badCountsHist > 0.0
+            # Count the neighboring pulses between each victim pulse's own edges (those of nearby pulses can overlap)
+            compareChannelsPulsesList.sort()
+            first = np.searchsorted(compareChannelsPulsesList, startEdges)
+            last = np.searchsorted(compareChannelsPulsesList, stopEdges)
+            crosstalking_pulses = last > first
             return crosstalking_pulses
 
         # Check to see if nearest neighbors list has already been set, otherwise skip
@@ -2408,13 +2407,11 @@ class MicrocalDataSet:  # noqa: PLR0904
                 priorTime /= 1000.0
                 postTime /= 1000.0
 
-                # Create uneven histogram edges, with a specified amount of time before and after a photon event
                 pulseTimes = self.p_subframecount[:] * self.subframe_timebase
 
                 # Create start and stop edges around pulses corresponding to veto times
                 startEdges = pulseTimes - priorTime
                 stopEdges = pulseTimes + postTime
-                combinedEdges = np.sort(np.append(startEdges, stopEdges))
 
                 if combineCategories:
                     LOG.info('Checking crosstalk between channel %d and combined neighbors...', self.channum)
-- 
2.43.0


From 45ab5f4426dd9ef9a6bb55f48bbd6714e5e50acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 159/193] fix: forget earlier crosstalk flags when forced to
 compute them anew

---
 mass/core/channel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index a87bd05..ceb8b66 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2402,6 +2402,11 @@ class MicrocalDataSet:  # noqa: PLR0904
 
             # Check to see if crosstalk list has already been written and skip, unless forceNew
             if (not np.any(h5grp[crosstalk_key][:]) or forceNew):
+                # Start over: flags from an earlier computation do not count
+                h5grp[crosstalk_key][:] = False
+                if not combineCategories:
+                    for neighborCategory in self.hdf5_group[nn_channel_key]:
+                        h5grp[crosstalk_key + '_' + neighborCategory][:] = False
 
                 # Convert from ms input to s used in rest of MASS
                 priorTime /= 1000.0
-- 
2.43.0


From 36b2ed6509867d2b022acac5befdd7be3774708a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:00 +0000
Subject: [PATCH 160/193] fix: do not overflow the hit counter of CrosstalkVeto

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 56e10da..c6df547 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1452,7 +1452,7 @@ class CrosstalkVeto:
 
         ms0 = np.array([ds.p_timestamp[0] for ds in datagroup.datasets]).min() * 1e3 + window_ms[0]
         ms9 = np.array([ds.p_timestamp[-1] for ds in datagroup.datasets]).max() * 1e3 + window_ms[1]
-        self.nhits = np.zeros(int(ms9 - ms0 + 1), dtype=np.int8)
+        self.nhits = np.zeros(int(ms9 - ms0 + 1), dtype=np.int32)
         self.time0 = ms0
 
         for ds in datagroup.datasets:
-- 
2.43.0


From f98427ef1ed84e07e659e428f104fd37155199bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:05 +0000
Subject: [PATCH 161/193] fix: energy2ph_exact of long inputs starts its search
 near the solution

For more than 1024 energies, 5 Newton steps were made from the guess that
pulse heights equal energies. With other pulse height units, these can
leave the calibrated range and end far from the solution.
---
 mass/calibration/energy_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 06deb48..c7bf1c7 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -193,7 +193,8 @@ class EnergyCalibration:  # noqa: PLR0904
             self._e2phwarned = True
 
         if len(energy) > 1024:
-            phs = np.array(energy, dtype=float)
+            # Start from the approximate inverse: the pulse heights can be far from the energies.
+            phs = np.array(self.energy2ph(energy), dtype=float)
             # Newton methods with a fixed number of iterations.
             for _ in range(5):
                 phs -= (self(phs) - energy) / self(phs, der=1)
-- 
2.43.0


From 208426590c0bcd635e6cf95e70c0bea8dd4c9d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 162/193] fix: filters scale the pulse model by its peak among
 the samples not cut

---
 mass/core/optimal_filtering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/core/optimal_filtering.py b/mass/core/optimal_filtering.py
index f9d8dc5..ead9d16 100644
--- a/mass/core/optimal_filtering.py
+++ b/mass/core/optimal_filtering.py
@@ -678,7 +678,8 @@ class FilterMaker:
         # avg_signal: normalize to have unit peak
         avg_signal -= pre_avg
 
-        rescale = 1 / np.max(-avg_signal if is_negative else avg_signal)
+        used_signal = avg_signal[cut_pre:ns - cut_post]
+        rescale = 1 / np.max(-used_signal if is_negative else used_signal)
         avg_signal *= rescale
         avg_signal[:self.n_pretrigger] = 0.0
         avg_signal = avg_signal[cut_pre:ns - cut_post]
-- 
2.43.0


From d168ce06566d2a251329d1f021841bbb9d9d4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:11 +0000
Subject: [PATCH 163/193] fix: annotate_lines labels both line lists, scaled to
 the axis it is given

---
 mass/core/utilities.py | 13 +++++++------
 mass/off/util.py       | 21 +++++++++++----------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/mass/core/utilities.py b/mass/core/utilities.py
index f4240b3..e0e844e 100644
--- a/mass/core/utilities.py
+++ b/mass/core/utilities.py
@@ -179,20 +179,21 @@ def annotate_lines(axis, label_lines, label_lines_color2=[], color1="k", color2=
     color2 -- text color for label_lines_color2
     """
     n = len(label_lines) + len(label_lines_color2)
-    yscale = plt.gca().get_yscale()
+    yscale = axis.get_yscale()
+    ymax = axis.get_ylim()[1]
     for (i, label_line) in enumerate(label_lines):
         energy = mass.STANDARD_FEATURES[label_line]
         if yscale == "linear":
-            axis.annotate(label_line, (energy, (1 + i) * plt.ylim()[1] / float(1.5 * n)),
+            axis.annotate(label_line, (energy, (1 + i) * ymax / float(1.5 * n)),
                           xycoords="data", color=color1)
         elif yscale == "log":
-            axis.annotate(label_line, (energy, np.exp((1 + i) * np.log(plt.ylim()[1]) / float(1.5 * n))),
+            axis.annotate(label_line, (energy, np.exp((1 + i) * np.log(ymax) / float(1.5 * n))),
                           xycoords="data", color=color1)
-    for (j, label_line) in enumerate(label_lines_color2):
+    for (j, label_line) in enumerate(label_lines_color2, start=len(label_lines)):
         energy = mass.STANDARD_FEATURES[label_line]
         if yscale == "linear":
-            axis.annotate(label_line, (energy, (2 + i + j) * plt.ylim()[1] / float(1.5 * n)),
+            axis.annotate(label_line, (energy, (1 + j) * ymax / float(1.5 * n)),
                           xycoords="data", color=color2)
         elif yscale == "log":
-            axis.annotate(label_line, (energy, np.exp((2 + i + j) * np.log(plt.ylim()[1]) / float(1.5 * n))),
+            axis.annotate(label_line, (energy, np.exp((1 + j) * np.log(ymax) / float(1.5 * n))),
                           xycoords="data", color=color2)
diff --git a/mass/off/util.py b/mass/off/util.py
index 384d982..eda3883 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -311,23 +311,24 @@ def annotate_lines(axis, labelLines, labelLines_color2=[], color1="k", color2="r
     color2 -- text color for labelLines_color2
     """
     n = len(labelLines) + len(labelLines_color2)
-    yscale = plt.gca().get_yscale()
+    yscale = axis.get_yscale()
+    ymax = axis.get_ylim()[1]
     for (i, labelLine) in enumerate(labelLines):
         energy = mass.STANDARD_FEATURES[labelLine]
         if yscale == "linear":
-            axis.annotate(labelLine, (energy, (1 + i) * plt.ylim()
-                                      [1] / float(1.5 * n)), xycoords="data", color=color1)
+            axis.annotate(labelLine, (energy, (1 + i) * ymax / float(1.5 * n)),
+                          xycoords="data", color=color1)
         elif yscale == "log":
-            axis.annotate(labelLine, (energy, np.exp(
-                (1 + i) * np.log(plt.ylim()[1]) / float(1.5 * n))), xycoords="data", color=color1)
-    for (j, labelLine) in enumerate(labelLines_color2):
+            axis.annotate(labelLine, (energy, np.exp((1 + i) * np.log(ymax) / float(1.5 * n))),
+                          xycoords="data", color=color1)
+    for (j, labelLine) in enumerate(labelLines_color2, start=len(labelLines)):
         energy = mass.STANDARD_FEATURES[labelLine]
         if yscale == "linear":
-            axis.annotate(labelLine, (energy, (2 + i + j) * plt.ylim()
-                                      [1] / float(1.5 * n)), xycoords="data", color=color2)
+            axis.annotate(labelLine, (energy, (1 + j) * ymax / float(1.5 * n)),
+                          xycoords="data", color=color2)
         elif yscale == "log":
-            axis.annotate(labelLine, (energy, np.exp(
-                (2 + i + j) * np.log(plt.ylim()[1]) / float(1.5 * n))), xycoords="data", color=color2)
+            axis.annotate(labelLine, (energy, np.exp((1 + j) * np.log(ymax) / float(1.5 * n))),
+                          xycoords="data", color=color2)
 
 
 class SilenceBar(progress.bar.Bar):
-- 
2.43.0


From 54d996c15c7c95ea94f3c7526c66f4fc318cd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:11 +0000
Subject: [PATCH 164/193] fix: plots draw and label on the axis they are given,
 not on the current one

---
 mass/calibration/line_models.py |  2 +-
 mass/core/channel.py            |  2 +-
 mass/core/channel_group.py      | 24 ++++++++++++------------
 mass/mathstat/power_spectrum.py |  2 +-
 mass/off/channels.py            | 26 +++++++++++++-------------
 5 files changed, 28 insertions(+), 28 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index a597e37..d9518b7 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -380,7 +380,7 @@ class LineModelResult(lmfit.model.ModelResult):
         ax = lmfit.model.ModelResult.plot_fit(self, ax=ax,
                                               xlabel=xlabel, ylabel=ylabel)
         if title is not None:
-            plt.title(title)
+            ax.set_title(title)
         ax.text(0.05, 0.95, self._compact_fit_report(), transform=ax.transAxes,
                 verticalalignment="top", bbox=dict(facecolor='w', alpha=0.5), family="monospace")
         # ax.legend(["data", self._compact_fit_report()],loc='best', frameon=True, framealpha = 0.5)
diff --git a/mass/core/channel.py b/mass/core/channel.py
index ceb8b66..e0ba433 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -276,7 +276,7 @@ class NoiseRecords:
             yvalue = np.sqrt(yvalue)
         freq = np.arange(1, 1 + len(yvalue)) * self.noise_psd.attrs['delta_f']
         axis.plot(freq, yvalue, **kwarg)
-        plt.loglog()
+        axis.loglog()
         axis.grid()
         axis.set_xlim([10, 3e5])
         axis.set_xlabel("Frequency (Hz)")
diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index c6df547..22e4480 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -968,15 +968,15 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             if fcut is not None:
                 avg_pulse = mass.core.analysis_algorithms.filter_signal_lowpass(
                     avg_pulse, 1. / self.timebase, fcut)
-            plt.plot(dt, avg_pulse, label=f"Chan {ds.channum}", color=cmap(float(i) / nplot))
+            axis.plot(dt, avg_pulse, label=f"Chan {ds.channum}", color=cmap(float(i) / nplot))
 
-        plt.title("Average pulse for each channel when it is hit")
+        axis.set_title("Average pulse for each channel when it is hit")
 
-        plt.xlabel("Time past trigger (ms)")
-        plt.ylabel("Raw counts")
-        plt.xlim([dt[0], dt[-1]])
+        axis.set_xlabel("Time past trigger (ms)")
+        axis.set_ylabel("Raw counts")
+        axis.set_xlim([dt[0], dt[-1]])
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if nplot > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1006,12 +1006,12 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             ds = self.channel[channum]
             if ds.filter is None:
                 continue
-            plt.plot(ds.filter.values, label=f"Chan {ds.channum}",
+            axis.plot(ds.filter.values, label=f"Chan {ds.channum}",
                      color=cmap(float(ds_num) / len(channels)))
 
-        plt.xlabel("Sample number")
+        axis.set_xlabel("Sample number")
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if len(channels) > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1070,9 +1070,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             noise = ds.noise_records
             noise.plot_autocorrelation(axis=axis, label=f'Chan {channum}',
                                        color=cmap(float(ds_num) / len(channels)))
-        plt.xlabel("Time lag (ms)")
+        axis.set_xlabel("Time lag (ms)")
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if len(channels) > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
@@ -1163,7 +1163,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         axis.set_xlabel("Frequency (Hz)")
         axis.loglog()
         if legend:
-            plt.legend(loc='best')
+            axis.legend(loc='best')
             if nplot > 12:
                 ltext = axis.get_legend().get_texts()
                 plt.setp(ltext, fontsize='small')
diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index 4b11b0a..aac956d 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -168,7 +168,7 @@ class PowerSpectrum:
         else:
             axis.plot(freq, psd, **plotkwarg)
             axis.set_ylabel(f"Amplitude Spectral Density ({unit_label}$^2$ Hz$^{{-1}}$)")
-        plt.loglog()
+        axis.loglog()
         axis.grid()
         axis.set_xlabel("Frequency (Hz)")
 
diff --git a/mass/off/channels.py b/mass/off/channels.py
index d31a382..cfb5778 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -105,7 +105,7 @@ class CorG:
                 axis.plot(x, y, drawstyle="steps-mid", label=state)
         axis.set_xlabel(attr)
         axis.set_ylabel("counts per %0.1f unit bin" % (binEdges[1] - binEdges[0]))
-        plt.legend(title="states")
+        axis.legend(title="states")
         axis.set_title(self.shortName)
         annotate_lines(axis, labelLines)
         return axis
@@ -469,10 +469,10 @@ class Channel(CorG):  # noqa: PLR0904
         counts, binEdgesA, binEdgesB = np.histogram2d(vA, vB, binEdgesAB)
         binCentersA = 0.5 * (binEdgesA[1:] + binEdgesA[:-1])
         binCentersB = 0.5 * (binEdgesB[1:] + binEdgesB[:-1])
-        plt.contourf(binCentersA, binCentersB, counts.T, norm=norm)
-        plt.xlabel(nameA)
-        plt.ylabel(nameB)
-        plt.title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
+        axis.contourf(binCentersA, binCentersB, counts.T, norm=norm)
+        axis.set_xlabel(nameA)
+        axis.set_ylabel(nameB)
+        axis.set_title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
         return axis
 
     def plotAvsB(self, nameA, nameB, axis=None, states=None, includeBad=False, cutRecipeName=None):
@@ -486,10 +486,10 @@ class Channel(CorG):  # noqa: PLR0904
             self._plotAvsB_list(nameA, nameB, axis, states, includeBad, cutRecipeName)
         else:
             self._plotAvsB_single(nameA, nameB, axis, states, includeBad, cutRecipeName)
-        plt.xlabel(nameA)
-        plt.ylabel(nameB)
-        plt.title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
-        plt.legend(title="states")
+        axis.set_xlabel(nameA)
+        axis.set_ylabel(nameB)
+        axis.set_title(f"{self.shortName}\ncutRecipeName={cutRecipeName}")
+        axis.legend(title="states")
         return axis
 
     def _plotAvsB_list(self, nameA, nameBlist, axis, states, includeBad, cutRecipeName):
@@ -603,10 +603,10 @@ class Channel(CorG):  # noqa: PLR0904
                                         "filtValueDC"], state, cutRecipeName=True)
                 axis.plot(A, B, "x", label=state + " bad")
                 axis.plot(A, C, "x", label=state + " bad DC")
-        plt.xlabel(indicatorName)
-        plt.ylabel(uncorrectedName + ",filtValueDC")
-        plt.title(self.shortName + " drift correct comparison")
-        plt.legend(title="states")
+        axis.set_xlabel(indicatorName)
+        axis.set_ylabel(uncorrectedName + ",filtValueDC")
+        axis.set_title(self.shortName + " drift correct comparison")
+        axis.legend(title="states")
         return axis
 
     def calibrationPlanInit(self, attr):
-- 
2.43.0


From dacd66808c88cc6583a546bf9bee5b0d0420afbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:46 +0000
Subject: [PATCH 165/193] fix: label the histogram of a single state with its
 name

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index cfb5778..2e1a10b 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -96,7 +96,7 @@ class CorG:
             states = self.stateLabels
         if coAddStates:
             # Passing a sequence as a label is deprecated in Matplotlib 3.9, so make it a string
-            label = ", ".join(states)
+            label = ", ".join(util.iterstates(states))
             x, y = self.hist(binEdges, attr, states=states, cutRecipeName=cutRecipeName)
             axis.plot(x, y, drawstyle="steps-mid", label=label)
         else:
-- 
2.43.0


From 8d107e8d0d5f27fcf5f999413bb8d1d515a35ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:46 +0000
Subject: [PATCH 166/193] fix: plotCompareDriftCorrect shows the bad pulses
 when asked to

---
 mass/off/channels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 2e1a10b..91bbec2 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -593,6 +593,7 @@ class Channel(CorG):  # noqa: PLR0904
         assert recipe.i2a[uncorrectedName] == "uncorrected"
         if states is None:
             states = self.stateLabels
+        cutRecipeName = self._handleDefaultCut(cutRecipeName)
         for state in util.iterstates(states):
             A, B, C = self.getAttr([indicatorName, uncorrectedName,
                                     "filtValueDC"], state, cutRecipeName)
@@ -600,7 +601,7 @@ class Channel(CorG):  # noqa: PLR0904
             axis.plot(A, C, ".", label=state + " DC")
             if includeBad:
                 A, B, C = self.getAttr([indicatorName, uncorrectedName,
-                                        "filtValueDC"], state, cutRecipeName=True)
+                                        "filtValueDC"], state, f"!{cutRecipeName}")
                 axis.plot(A, B, "x", label=state + " bad")
                 axis.plot(A, C, "x", label=state + " bad DC")
         axis.set_xlabel(indicatorName)
-- 
2.43.0


From d1688a283af7752441c8ce3fd5af4b266198fc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:46 +0000
Subject: [PATCH 167/193] fix: plot_noise keeps all channels within its limits
 and labels the units it shows

---
 mass/core/channel_group.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 22e4480..6b1c12f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1132,14 +1132,13 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             units = "Scaled counts"
 
         axis.grid(True)
+        fmax = 0.0
+        fmin = 1e20
         for i, ds in enumerate(dsets):
             channum = ds.channum
             yvalue = ds.noise_psd[:] * scale_factor**2
-            fmax = 0.0
-            fmin = 1e20
             if sqrt_psd:
                 yvalue = np.sqrt(yvalue)
-                axis.set_ylabel(f"PSD$^{1 / 2}$ ({units}/Hz$^{1 / 2}$)")
             try:
                 df = ds.noise_psd.attrs['delta_f']
                 freq = np.arange(len(yvalue)) * df
@@ -1159,7 +1158,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if fmax == 0:
             raise ValueError("No datasets plotted successfully")
         axis.set_xlim((fmin, fmax))
-        axis.set_ylabel(f"Power Spectral Density ({units}^2/Hz)")
+        if sqrt_psd:
+            axis.set_ylabel(f"PSD$^{{1/2}}$ ({units}/Hz$^{{1/2}}$)")
+        else:
+            axis.set_ylabel(f"Power Spectral Density ({units}^2/Hz)")
         axis.set_xlabel("Frequency (Hz)")
         axis.loglog()
         if legend:
-- 
2.43.0


From d25146e1b2bfbebfc684c50df3bf072383833b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:46 +0000
Subject: [PATCH 168/193] fix: group plot_summaries can show all pulses, cut or
 uncut

---
 mass/core/channel_group.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 6b1c12f..57a6699 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -782,6 +782,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for i, (channum, ds) in enumerate(zip(channel_numbers, datasets)):
 
             # Convert "uncut" or "cut" to array of all good or all bad data
+            valid_mask = None
             if isstr(valid):
                 if "uncut" in valid.lower():
                     valid_mask = ds.cuts.good()
@@ -815,7 +816,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
                 limits = hist_limits
 
             # Vectors are being sampled and multiplied, so eval() is needed.
-            vect = eval(f"ds.{vect}")[valid_mask]
+            vect = eval(f"ds.{vect}")[:]
+            if valid_mask is not None:
+                vect = vect[valid_mask]
 
             # Scatter plots on left half of figure
             if i == 0:
-- 
2.43.0


From 0c7a7606a472c308f4880f9b8e5505d3766c32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:46 +0000
Subject: [PATCH 169/193] fix: plot_summary_pages and plot_histogram_pages
 write their numbered pages

---
 mass/core/channel_group.py | 12 ++++++------
 mass/core/utilities.py     |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 57a6699..44f610f 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1262,9 +1262,9 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if suffix is None:
             suffix = os.path.basename(self.channels[0].datafile.filename)[:15]
 
-        filename_template_per_file = f'{y_attr}.vs.{x_attr}-{suffix}-%%03d.{fileformat}'
+        filename_template_per_file = f'{y_attr}.vs.{x_attr}-{suffix}-%03d.{fileformat}'
         filename_template_glob = f'{y_attr}.vs.{x_attr}-{suffix}-[0-9][0-9][0-9].{fileformat}'
-        filename_one_file = f'{y_attr}.vs.{x_attr}-{suffix}.pdf' % (y_attr, x_attr, suffix)
+        filename_one_file = f'{y_attr}.vs.{x_attr}-{suffix}.pdf'
 
         def helper(ds, ax):
             ch = ds.channum
@@ -1303,7 +1303,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.title(f'MATTER Chan {ch}', fontsize=10)
 
         plot_multipage(self, subplot_shape, helper, filename_template_per_file,
-                       filename_template_glob, filename_one_file, format, one_file)
+                       filename_template_glob, filename_one_file, fileformat, one_file)
 
     def plot_histogram_pages(self, attr, valrange, bins, y_range=None, subplot_shape=(3, 4),  # noqa: PLR0917
                              suffix=None, lines=None, fileformat='png', one_file=False):
@@ -1341,7 +1341,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         if suffix is None:
             suffix = os.path.basename(self.channels[0].datafile.filename)[:15]
 
-        filename_template_per_file = f'{attr}-hist-{suffix}-%%03d.{fileformat}'
+        filename_template_per_file = f'{attr}-hist-{suffix}-%03d.{fileformat}'
         filename_template_glob = f'{attr}-hist-{suffix}-[0-9][0-9][0-9].{fileformat}'
         filename_one_file = f'{attr}-hist-{suffix}.pdf'
 
@@ -1352,7 +1352,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             # I generally prefer the "stepped" histtype, but that seems to interact
             # poorly with log scale - the automatic choice of axis limits gets
             # screwed up.
-            plt.hist(x_g, range=range, bins=bins, histtype='bar')
+            plt.hist(x_g, range=valrange, bins=bins, histtype='bar')
             plt.yscale('log')
 
             if lines is not None:
@@ -1370,7 +1370,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             plt.title(f'MATTER Ch{ds.channum}', fontsize=10)
 
         plot_multipage(self, subplot_shape, helper, filename_template_per_file,
-                       filename_template_glob, filename_one_file, format, one_file)
+                       filename_template_glob, filename_one_file, fileformat, one_file)
 
     def hists(self, bin_edges, attr="p_energy", t0=0, tlast=1e20, category={}, g_func=None):
         """return a tuple of (bin_centers, countsdict). automatically filters out nan values
diff --git a/mass/core/utilities.py b/mass/core/utilities.py
index e0e844e..2126d12 100644
--- a/mass/core/utilities.py
+++ b/mass/core/utilities.py
@@ -141,7 +141,7 @@ def plot_multipage(data, subplot_shape, helper, filename_template_per_file,
         helper(ds, ax)
 
         if ((k + 1) % (m * n)) == 0:
-            plt.tight_layout(True)
+            plt.tight_layout()
             if format == 'pdf' and one_file:
                 pdf.savefig()
             else:
@@ -150,7 +150,7 @@ def plot_multipage(data, subplot_shape, helper, filename_template_per_file,
 
     # If final page is not full of plots, it hasn't yet been saved, so need to save it.
     if ((k + 1) % (m * n) != 0):
-        plt.tight_layout(True)
+        plt.tight_layout()
         if format == 'pdf' and one_file:
             pdf.savefig()
         else:
-- 
2.43.0


From 1088f537ea1d3f7cc833192bd0f81d65bae3a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:46 +0000
Subject: [PATCH 170/193] fix: plot_traces accepts any single record number

---
 mass/core/channel.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index e0ba433..0e7126d 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2041,9 +2041,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             <fcut>  If not none, apply a lowpass filter with this cutoff frequency prior to plotting
         """
 
-        if isinstance(pulsenums, int):
-            pulsenums = (pulsenums,)
-        pulsenums = np.asarray(pulsenums)
+        pulsenums = np.atleast_1d(pulsenums)
         if pulse_summary:
             try:
                 if len(self.p_pretrig_mean) == 0:
-- 
2.43.0


From 0c5ad0869675fa61299704afdc0578b5760c5ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:19 +0000
Subject: [PATCH 171/193] fix: group plot_summaries knows all the quantities by
 their documented names

---
 mass/core/channel_group.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 44f610f..6a2d7d2 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -753,12 +753,15 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
             ("p_peak_index[:]", 'Peak index', 'red', [600, 800])
         )
 
-        quant_names = [p[1].lower().replace(" ", "") for p in plottables]
+        quant_names = ["pulserms", "pulseavg", "peakvalue", "pretrigrms", "pretrigmean",
+                       "maxptderiv", "risetime", "peaktime", "peakindex"]
+        label_names = [p[1].lower().replace(" ", "") for p in plottables]
         if quantity in range(len(quant_names)):
             plottable = plottables[quantity]
         else:
-            quantity = quant_names.index(quantity.lower().replace(" ", ""))
-            plottable = plottables[quantity]
+            quantity = quantity.lower().replace(" ", "")
+            names = quant_names if quantity in quant_names else label_names
+            plottable = plottables[names.index(quantity)]
 
         MAX_TO_PLOT = 16
         if channel_numbers is None:
-- 
2.43.0


From 0f45c90cd2a91e2950af23e86549855b880c0cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:19 +0000
Subject: [PATCH 172/193] fix: calibration plots of logarithms draw the error
 of the logarithm

---
 mass/calibration/energy_calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index c7bf1c7..2a96cc5 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -726,7 +726,9 @@ class EnergyCalibration:  # noqa: PLR0904
             axis.plot(xplot, yplot - dyplot, color=color, alpha=0.35)
 
         # Plot and label cal points
-        dy = ((self._de / self._energies)**2 + (self._dph / self._ph)**2)**0.5 * y
+        dy = ((self._de / self._energies)**2 + (self._dph / self._ph)**2)**0.5
+        if plottype not in {"loggain", "loglog"}:  # the error of a logarithm is the relative error
+            dy *= y
         axis.errorbar(x, y - slope * x, yerr=dy, xerr=xerr, fmt='o',
                       mec='black', mfc=markercolor, capsize=0)
         axis.grid(True)
-- 
2.43.0


From 8f085b92caaa1ccdd35f89d99c5ed72c7c25a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:52 +0000
Subject: [PATCH 173/193] fix: the uncertainty of a calibration curve through
 fewer than three points is known too

---
 mass/calibration/energy_calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/calibration/energy_calibration.py b/mass/calibration/energy_calibration.py
index 2a96cc5..3d09567 100644
--- a/mass/calibration/energy_calibration.py
+++ b/mass/calibration/energy_calibration.py
@@ -115,6 +115,7 @@ class EnergyCalibration:  # noqa: PLR0904
         self._de = np.zeros(0, dtype=float)
         self._names = []
         self.npts = 0
+        self._uncertainty = np.zeros_like
         self._use_approximation = approximate
         self._use_GPR = useGPR
         self._model_is_stale = False
@@ -432,6 +433,7 @@ class EnergyCalibration:  # noqa: PLR0904
         if self.npts == 0:
             # In the absence of any information at all, we just let E = PH.
             self._ph2e = self._e2ph = Identity()
+            self._uncertainty = np.zeros_like
             self._model_is_stale = False
             return
 
@@ -545,6 +547,7 @@ class EnergyCalibration:  # noqa: PLR0904
 
     def _update_exactcurves(self):
         """Update the E(P) curve; assume exact interpolation of calibration data."""
+        self._uncertainty = np.zeros_like
         # Choose proper curve/interpolating function object
         # For N=0 points, in the absence of any information at all, we just let E = PH.
         # For N=1 points, use E proportional to PH (or if loglog curve, then a power law of
-- 
2.43.0


From 683999941a7aac2bbb3d825e67f17a22310fdf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:00 +0000
Subject: [PATCH 174/193] fix: linefit starts from the guess_params it is given

---
 mass/core/channel.py       | 2 ++
 mass/core/channel_group.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 0e7126d..691cc4c 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2668,6 +2668,8 @@ class MicrocalDataSet:  # noqa: PLR0904
 
         params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
         params["dph_de"].set(vary=False)
+        if guess_params is not None:
+            params.update(guess_params)
         result = model.fit(counts, params=params, bin_centers=bin_centers)
         if plot:
             result.plotm(ax=axis, xlabel=f"{attr} ({ph_units})",
diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 6a2d7d2..5931333 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1437,6 +1437,8 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
 
         params = model.guess(counts, bin_centers=bin_centers, dph_de=1)
         params["dph_de"].set(vary=False)
+        if guess_params is not None:
+            params.update(guess_params)
         result = model.fit(counts, params=params, bin_centers=bin_centers)
         if plot:
             result.plotm(ax=axis, xlabel=f"{attr} ({ph_units})",
-- 
2.43.0


From d81bb0d646767f7ae1b3004b493724680329d099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:00 +0000
Subject: [PATCH 175/193] fix: hold the parameters fixed that linefit and
 qualityCheckLinefit are told to

---
 mass/off/channels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 91bbec2..141abc0 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -133,6 +133,7 @@ class CorG:
         method -- fit method to use
         has_tails -- used when creating a model, will add both high and low energy tails to the model
         params_update -- after guessing params, call params.update(params_update)
+        params_fixed -- a dictionary of parameter names and the values to hold them at in the fit
         minimum_bins_per_fwhm -- passed to model.fit
         """
         model = mass.get_model(
@@ -166,6 +167,9 @@ class CorG:
         else:
             attr_str = attr
         params.update(params_update)
+        if params_fixed is not None:
+            for name, value in params_fixed.items():
+                params[name].set(getattr(value, "value", value), vary=False)
         # unit_str and attr_str are used by result.plotm to label the axes properly
         result = model.fit(counts, params, bin_centers=bin_centers, method=method,
                            minimum_bins_per_fwhm=minimum_bins_per_fwhm)
-- 
2.43.0


From d4db975c009bedbed566ca3d06f0f23a4d63567f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:00 +0000
Subject: [PATCH 176/193] fix: label the plot of a line fit with the width of
 the bins that were fitted

---
 mass/core/channel.py       | 2 +-
 mass/core/channel_group.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 691cc4c..64f91f3 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2673,7 +2673,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         result = model.fit(counts, params=params, bin_centers=bin_centers)
         if plot:
             result.plotm(ax=axis, xlabel=f"{attr} ({ph_units})",
-                         ylabel=f"counts per {binsize:0.2f} ({ph_units}) bin",
+                         ylabel=f"counts per {bin_edges[1] - bin_edges[0]:0.2f} ({ph_units}) bin",
                          title=f"{self.shortname}\n{model.spect}")
 
         return result
diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 5931333..1131590 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1442,7 +1442,7 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         result = model.fit(counts, params=params, bin_centers=bin_centers)
         if plot:
             result.plotm(ax=axis, xlabel=f"{attr} ({ph_units})",
-                         ylabel=f"counts per {binsize:0.2f} ({ph_units}) bin",
+                         ylabel=f"counts per {bin_edges[1] - bin_edges[0]:0.2f} ({ph_units}) bin",
                          title=f"{self.shortname}\n{model.spect}")
 
         return result
-- 
2.43.0


From c6e75b0971efb330790173b559aeaa895b5136de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:17 +0000
Subject: [PATCH 177/193] fix: resultPlot shows the line positions at their
 channel numbers, as its axis says

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 141abc0..36ac79c 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -1417,7 +1417,7 @@ class ChannelGroup(CorG, GroupLooper, collections.OrderedDict):  # noqa: PLR0904
         plt.vlines(result.model.spect.peak_energy, plt.ylim()
                    [0], plt.ylim()[1], label="db position")
         ax = plt.subplot(2, 2, 4)
-        plt.errorbar(np.arange(len(positions)), positions, yerr=position_errs, fmt=".")
+        plt.errorbar([ds.channum for ds in self.values()], positions, yerr=position_errs, fmt=".")
         plt.hlines(result.model.spect.peak_energy, plt.xlim()
                    [0], plt.xlim()[1], label="db position")
         plt.legend()
-- 
2.43.0


From a7153e358bea17d2382820566b4ae9b609443131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:17 +0000
Subject: [PATCH 178/193] fix: diagnoseCalibration marks the plan that the
 calibration followed

---
 mass/off/channels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/off/channels.py b/mass/off/channels.py
index 36ac79c..834b7d8 100644
--- a/mass/off/channels.py
+++ b/mass/off/channels.py
@@ -852,7 +852,7 @@ class Channel(CorG):  # noqa: PLR0904
         ax = plt.subplot(n, n, i + 3)
         self.plotHist(filtValuePlotBinEdges, uncalibratedName,
                       axis=ax, coAddStates=False)
-        plt.vlines(self.calibrationPlan.uncalibratedVals, 0, plt.ylim()[1])
+        plt.vlines(calibration.plan.uncalibratedVals, 0, plt.ylim()[1])
         plt.tight_layout()
 
     def add5LagRecipes(self, f):
-- 
2.43.0


From 88b8f5ae4817b2da6bc2924ef7ad6df6118ec22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:24 +0000
Subject: [PATCH 179/193] fix: labelPeak writes on the axis it is given

---
 mass/off/util.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/off/util.py b/mass/off/util.py
index eda3883..73f5cb4 100644
--- a/mass/off/util.py
+++ b/mass/off/util.py
@@ -6,7 +6,6 @@ import sys
 
 # pkg imports
 import progress.bar
-import pylab as plt
 import numpy as np
 
 # user imports
@@ -294,8 +293,8 @@ def labelPeak(axis, name, energy, line=None, deltaELocalMaximum=5, color=None):
         color = line.get_color()
     ydataLocalMaximum = np.amax([np.interp(energy + de, line.get_xdata(), line.get_ydata(),
                                            right=0, left=0) for de in np.linspace(-1, 1, 10) * deltaELocalMaximum])
-    plt.annotate(name, (energy, ydataLocalMaximum), (0, 10), textcoords='offset points',
-                 rotation=90, verticalalignment='top', horizontalalignment="center", color=color)
+    axis.annotate(name, (energy, ydataLocalMaximum), (0, 10), textcoords='offset points',
+                  rotation=90, verticalalignment='top', horizontalalignment="center", color=color)
 
 
 def labelPeaks(axis, names, energies, line=None, deltaELocalMaximum=5, color=None):
-- 
2.43.0


From 71003f4b54eef8f479bb9c63980a19954922b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:11 +0000
Subject: [PATCH 180/193] fix: name the HDF5 file after the data file, whatever
 its directory is called

---
 mass/core/channel_group.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 1131590..63a244c 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -24,7 +24,7 @@ from mass.calibration.energy_calibration import EnergyCalibration
 from mass.core.channel import MicrocalDataSet, PulseRecords, NoiseRecords, GroupLooper
 from mass.core.cut import CutFieldMixin
 from mass.core.utilities import InlineUpdater, show_progress, plot_multipage
-from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames
+from mass.core.ljh_util import remove_unpaired_channel_files, filename_glob_expand, ljh_get_extern_trig_fnames, ljh_basename_channum
 from ..common import isstr
 
 LOG = logging.getLogger("mass")
@@ -35,8 +35,10 @@ def _generate_hdf5_filename(rawname):
 
     Takes /path/to/data_chan33.ljh --> /path/to/data_mass.hdf5
     """
-    fparts = re.split(r"_chan\d+", rawname)
-    prefix_path = fparts[0]
+    # Look only at the file's own name, not at the directories that hold it.
+    prefix_path, channum = ljh_basename_channum(rawname)
+    if channum is None:
+        prefix_path = rawname
     if rawname.endswith("noi"):
         prefix_path += '_noise'
     return prefix_path + "_mass.hdf5"
-- 
2.43.0


From 0b95675113d54a052c7a581d4ac333c684d6906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:11 +0000
Subject: [PATCH 181/193] fix: RestoreTESGroup restores groups that have no
 noise files

---
 mass/core/channel_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 63a244c..4febf38 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -65,7 +65,7 @@ def RestoreTESGroup(hdf5filename, hdf5noisename=None):
             pulsefiles.append(group.attrs['filename'])
             channum.append(group.attrs['channum'])
 
-            if hdf5noisename is None:
+            if hdf5noisename is None and 'noise_filename' in group.attrs:
                 fname = group.attrs['noise_filename']
                 if generated_noise_hdf5_name is None:
                     generated_noise_hdf5_name = _generate_hdf5_filename(fname)
-- 
2.43.0


From fb635f962e1b8345f9d476c16b038b307b4f79a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:11 +0000
Subject: [PATCH 182/193] fix: RestoreTESGroup restores the channels in
 numerical order

---
 mass/core/channel_group.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 4febf38..11eee57 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -59,9 +59,8 @@ def RestoreTESGroup(hdf5filename, hdf5noisename=None):
     generated_noise_hdf5_name = None
 
     with h5py.File(hdf5filename, "r") as h5file:
-        for name, group in h5file.items():
-            if not name.startswith("chan"):
-                continue
+        groups = [group for name, group in h5file.items() if name.startswith("chan")]
+        for group in sorted(groups, key=lambda group: group.attrs['channum']):
             pulsefiles.append(group.attrs['filename'])
             channum.append(group.attrs['channum'])
 
-- 
2.43.0


From e2b1465366b8d73920421e48010b22d309e6a3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:47 +0000
Subject: [PATCH 183/193] fix: diagnose an automatic calibration on lines given
 by their energies

---
 mass/calibration/algorithms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mass/calibration/algorithms.py b/mass/calibration/algorithms.py
index 4189643..929a983 100644
--- a/mass/calibration/algorithms.py
+++ b/mass/calibration/algorithms.py
@@ -353,7 +353,7 @@ class EnergyCalibrationAutocal:
                     lw=1, fc="#4c4ce6", ec="#1a1aff", alpha=0.8)
 
             x = np.linspace(result.energies[0], result.energies[-1], 201)
-            if "Gaussian" in result.model.name:
+            if not isstr(el):
                 ax.text(0.05, 0.97, str(el)
                         + ' (eV)\n' + f"Resolution: {eres:.1f} (eV)",
                         transform=ax.transAxes, ha='left', va='top')
@@ -370,10 +370,9 @@ class EnergyCalibrationAutocal:
 
         for el, pht, energy in zip(self.line_names, self.calibration.cal_point_phs,
                                    self.calibration.cal_point_energies):
-            peak_name = 'Unknown'
             if isstr(el):
                 peak_name = el.replace('Alpha', r'$_{\alpha}$').replace('Beta', r'$_{\beta}$')
-            elif isinstance(el, (int, float)):
+            else:
                 peak_name = f"{energy:.1f} (eV)"
             ax.text(pht, energy,
                     peak_name,
-- 
2.43.0


From abdcc0be72b59f4a8801dc1a24700e82848991be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:47 +0000
Subject: [PATCH 184/193] fix: diagnose names the calibration points as the
 calibration does

---
 mass/calibration/algorithms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/algorithms.py b/mass/calibration/algorithms.py
index 929a983..2a22a84 100644
--- a/mass/calibration/algorithms.py
+++ b/mass/calibration/algorithms.py
@@ -368,8 +368,10 @@ class EnergyCalibrationAutocal:
 
         ax = fig.add_axes([lm + w, bm, (1.0 - lm - w) - 0.06, h - 0.05])
 
-        for el, pht, energy in zip(self.line_names, self.calibration.cal_point_phs,
-                                   self.calibration.cal_point_energies):
+        lines = {str(el): el for el in self.line_names}
+        for name, pht, energy in zip(self.calibration.cal_point_names, self.calibration.cal_point_phs,
+                                     self.calibration.cal_point_energies):
+            el = lines.get(name, name)
             if isstr(el):
                 peak_name = el.replace('Alpha', r'$_{\alpha}$').replace('Beta', r'$_{\beta}$')
             else:
-- 
2.43.0


From 7bed16d4119b352f118bfd44fda873b4b4bf14b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:53 +0000
Subject: [PATCH 185/193] fix: compare_calibrations plots the resolutions of
 the calibrations

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 64f91f3..d33daf6 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2165,7 +2165,7 @@ class MicrocalDataSet:  # noqa: PLR0904
         for key in self.calibration:
             cal = self.calibration[key]
             try:
-                plt.plot(cal.peak_energies, cal.energy_resolutions, 'o', label=key)
+                plt.plot(cal.autocal.energies_opt, cal.autocal.energy_resolutions, 'o', label=key)
             except Exception:
                 pass
         plt.legend()
-- 
2.43.0


From 35dc1b0d0f2b4d6f1150a05be92e9e06624ce360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:31 +0000
Subject: [PATCH 186/193] fix: smart_cuts with forceNew replaces the earlier
 smart cuts

---
 mass/core/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index d33daf6..8298541 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2335,6 +2335,7 @@ class MicrocalDataSet:  # noqa: PLR0904
             mdata = mdata.transpose()
             flag = robust.mahalanobis(mdata) > threshold**2
 
+            self.cuts.clear_cut("smart_cuts")  # start over: earlier smart cuts do not count
             self.cuts.cut("smart_cuts", flag)
             LOG.info("channel %g ran smart cuts, %g of %g pulses passed",
                      self.channum, self.cuts.good("smart_cuts").sum(), self.nPulses)
-- 
2.43.0


From 1255258f0c30fccda7687f0cdeea49a2cf123bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:30 +0000
Subject: [PATCH 187/193] fix: summarize_filters reports the resolution for
 pulses of the nominal height

---
 mass/core/channel_group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mass/core/channel_group.py b/mass/core/channel_group.py
index 11eee57..95ab52c 100644
--- a/mass/core/channel_group.py
+++ b/mass/core/channel_group.py
@@ -1029,10 +1029,10 @@ class TESGroup(CutFieldMixin, GroupLooper):  # noqa: PLR0904, PLR0917
         for i, ds in enumerate(self):
             try:
                 if ds.filter is not None:
-                    rms = ds.filter.variance**0.5
+                    v_dv = ds.filter.predicted_v_over_dv
                 else:
                     rms = ds.hdf5_group[f'filters/filt_{filter_name}'].attrs['variance']**0.5
-                v_dv = (1 / rms) / rms_fwhm
+                    v_dv = (1 / rms) / rms_fwhm
                 LOG.info("Chan %3d filter %-15s Predicted V/dV %6.1f  Predicted res at %.1f eV: %6.1f eV",
                          ds.channum, filter_name, v_dv, std_energy, std_energy / v_dv)
             except Exception as e:
-- 
2.43.0


From a2d25031b53d6057b21b6c4264c919e06456b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:20 +0000
Subject: [PATCH 188/193] fix: plot_all_spectra plots the spectra

---
 mass/calibration/fluorescence_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/calibration/fluorescence_lines.py b/mass/calibration/fluorescence_lines.py
index eca2514..484dc2a 100644
--- a/mass/calibration/fluorescence_lines.py
+++ b/mass/calibration/fluorescence_lines.py
@@ -1510,5 +1510,5 @@ def plot_all_spectra(maxplots=10):
     Intended to replicate plots in the literature giving spectral lineshapes."""
     keys = list(spectra.keys())[:maxplots]
     for name in keys:
-        spectrum = spectra[name]()
+        spectrum = spectra[name]
         spectrum.plot_like_reference()
-- 
2.43.0


From cd5bc521f7cc749f72954f006ce15bc491d91f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:41 +0000
Subject: [PATCH 189/193] fix: laplace_KL_divergence computes both its terms in
 the same mode

---
 mass/mathstat/entropy.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mass/mathstat/entropy.pyx b/mass/mathstat/entropy.pyx
index 93efd86..c64bed3 100644
--- a/mass/mathstat/entropy.pyx
+++ b/mass/mathstat/entropy.pyx
@@ -205,6 +205,9 @@ cpdef double laplace_KL_divergence(x, y, double w=1.0, approx_mode="size") excep
                that, and using Simpson's rule on the PDF samples that result.
     ``size``   Uses "approx" if len(x)+len(y)>200000, or "exact" otherwise.
     """
+    if approx_mode == "size":
+        # Both terms must be computed the same way.
+        approx_mode = "exact" if len(x)+len(y) <= 200000 else "approx"
     return laplace_cross_entropy(x, y, w, approx_mode=approx_mode) - \
         laplace_entropy(x, w, approx_mode=approx_mode)
 
-- 
2.43.0


From 763e3ab649b2f7716e93248d3d029a01eed621df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:25 +0000
Subject: [PATCH 190/193] fix: set_nearest_neighbors_list with forceNew accepts
 a map of another size

---
 mass/core/channel.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 8298541..44b674b 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2549,6 +2549,11 @@ class MicrocalDataSet:  # noqa: PLR0904
         # Set up hdf5 group and repopulate arrays, if already calculated earlier
         h5grp = self.hdf5_group.require_group('nearest_neighbors')
         h5grp.require_group(nearestNeighborCategory)
+        if forceNew:
+            # The new map can have another number of channels or dimensions than the stored one
+            for name in ('position', 'neighbors_list'):
+                if name in h5grp[nearestNeighborCategory]:
+                    del h5grp[nearestNeighborCategory][name]
 
         # Victim channel position dataset
         self.__dict__[f'position_{nearestNeighborCategory}'] = \
-- 
2.43.0


From cc247f3ac9e6ccd121ad8db8743f76237a8b863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:04 +0000
Subject: [PATCH 191/193] fix: set_nearest_neighbors_list accepts a map of one
 channel

---
 mass/core/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mass/core/channel.py b/mass/core/channel.py
index 44b674b..589a24b 100644
--- a/mass/core/channel.py
+++ b/mass/core/channel.py
@@ -2541,7 +2541,7 @@ class MicrocalDataSet:  # noqa: PLR0904
                 return np.array([], dtype=int)
 
         # Load channel numbers and positions from map file, define number of dimensions
-        mapData = np.loadtxt(mapFilename, dtype=int)
+        mapData = np.loadtxt(mapFilename, dtype=int, ndmin=2)
         channelNumbers = np.array(mapData[:, 0], dtype=int)
         positionValues = mapData[:, 1:]
         nDims = positionValues.shape[1]
-- 
2.43.0


From 8025273ca1c116345f86746796f01bc5372a4034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:17 +0000
Subject: [PATCH 192/193] fix: PowerSpectrumOverlap does not truncate data to
 the type of the first segment

---
 mass/mathstat/power_spectrum.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/mathstat/power_spectrum.py b/mass/mathstat/power_spectrum.py
index aac956d..3ffb7ed 100644
--- a/mass/mathstat/power_spectrum.py
+++ b/mass/mathstat/power_spectrum.py
@@ -198,9 +198,10 @@ class PowerSpectrumOverlap(PowerSpectrum):
         "Process a data segment of length m using window."
         if self.first:
             self.first = False
+            # Use floats, because later segments need not have the data type of the first.
             self.fullseg = np.concatenate((
-                np.zeros_like(data),
-                np.array(data)))
+                np.zeros(len(data), dtype=float),
+                np.array(data, dtype=float)))
         else:
             self.fullseg[0:self.m] = self.fullseg[self.m:]
             self.fullseg[self.m:] = data
-- 
2.43.0


From 1c332d074f563dab8a28cc5395cbe3e9032247cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:25 +0000
Subject: [PATCH 193/193] fix: a fit report shows parameters whose value or
 uncertainty is zero

---
 mass/calibration/line_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mass/calibration/line_models.py b/mass/calibration/line_models.py
index d9518b7..4a86c14 100644
--- a/mass/calibration/line_models.py
+++ b/mass/calibration/line_models.py
@@ -362,8 +362,9 @@ class LineModelResult(lmfit.model.ModelResult):
                     sig_figs = 2
                     s += f"{sn.get(k, k):7} {v.value:.{sig_figs}g}±None\n"
                 else:
-                    sig_figs = int(np.ceil(np.log10(np.abs(v.value / v.stderr))) + 1)
-                    sig_figs = max(1, sig_figs)
+                    sig_figs = 2
+                    if v.value != 0 and v.stderr > 0:
+                        sig_figs = max(1, int(np.ceil(np.log10(np.abs(v.value / v.stderr))) + 1))
                     s += f"{sn.get(k, k):7} {v.value:.{sig_figs}g}±{v.stderr:.2g}\n"
             else:
                 sig_figs = 2
-- 
2.43.0

