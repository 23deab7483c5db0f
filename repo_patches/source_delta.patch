From 9e00010ef312548e93dff0ad3efc079c192a8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:12 +0000
Subject: [PATCH 01/84] fix: circ_median_ci wraps its order statistics around
 the circle

The upper index could equal n (IndexError), data outside [0, 2pi) were ranked
linearly, and for n <= 15 the interval depended on where the origin is.
---
 pycircstat2/descriptive.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ff1ae71..744b77c 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1263,7 +1263,10 @@ def circ_median_ci(
         )
 
     n = len(alpha)
-    alpha = np.sort(alpha)
+    alpha = np.sort(angmod(np.asarray(alpha, dtype=float)))
+    if n <= 15 and not np.isnan(median):
+        # order statistics around the circle, starting opposite to the median
+        alpha = alpha[np.argsort(angmod(alpha - (median + np.pi)), kind="stable")]
 
     if n > 15:
         z = norm.ppf(1 - 0.5 * (1 - ci))
@@ -1284,7 +1287,7 @@ def circ_median_ci(
         if np.round(median, 5) in alpha.round(5):  # don't count the median per se
             idx_ub += 1
 
-        if idx_ub > n:
+        if idx_ub >= n:
             idx_ub = idx_ub - n
 
         if idx_lb < 0:
-- 
2.43.0


From 1cc494b2b102f509bc4e7998ba3c331fb96c297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:12 +0000
Subject: [PATCH 02/84] fix: geodesic distance and mean deviation of angles
 more than a turn apart

pi - |pi - |a - b|| is negative once |a - b| > 2pi; reduce modulo 2pi first.
---
 pycircstat2/descriptive.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 744b77c..492511f 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -773,7 +773,9 @@ def circ_mean_deviation_chunked(
     for start in range(0, beta_arr.size, chunk_size):
         stop = start + chunk_size
         beta_chunk = beta_arr[start:stop]
-        angdist = np.pi - np.abs(np.pi - np.abs(alpha_arr - beta_chunk[:, None]))
+        angdist = np.pi - np.abs(
+            np.pi - np.mod(np.abs(alpha_arr - beta_chunk[:, None]), 2 * np.pi)
+        )
         chunk_mean = np.round(np.mean(angdist, axis=1), 5)
         result[start : start + beta_chunk.size] = chunk_mean
 
@@ -823,7 +825,7 @@ def circ_mean_deviation(
     beta_arr = np.atleast_1d(np.asarray(beta, dtype=float))
 
     mean_dist = np.mean(
-        np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None])),
+        np.abs(np.pi - np.mod(np.abs(alpha_arr - beta_arr[:, None]), 2 * np.pi)),
         axis=1,
     )
     return np.round(np.pi - mean_dist, 5)
@@ -1460,7 +1462,7 @@ def circ_dist(
         distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
 
     elif metric == "geodesic":
-        distances = np.pi - np.abs(np.pi - np.abs(x - y))
+        distances = np.pi - np.abs(np.pi - np.mod(np.abs(x - y), 2 * np.pi))
 
     elif metric == "angularseparation":
         distances = 1 - np.cos(x - y)
-- 
2.43.0


From 2e401af0efad109aab1ef3601fb5e0606e6515b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:12 +0000
Subject: [PATCH 03/84] fix: circ_median treats only coincident points as
 coincident

The default rtol of isclose made every sample with r > 0.99999 return its first
observation, so the median of concentrated data depended on their order.
---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 492511f..bb4da8a 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -577,7 +577,7 @@ def circ_median(
 
     # edge cases for early exit
     # if all points coincide, return the first point
-    if np.isclose(circ_r(alpha, w), 1.0, atol=1e-12):
+    if np.isclose(circ_r(alpha, w), 1.0, rtol=0.0, atol=1e-12):
         if verbose:
             print("All points coincide, returning the first point as median.")
         return alpha[0]
-- 
2.43.0


From 8cc2a24b6773d12fea185a6cd128b38104621553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:57 +0000
Subject: [PATCH 04/84] fix: Kuiper, Watson and Rao spacing tests accept angles
 outside [0, 2pi)

The statistics sort the raw values, so adding whole turns to some of the
observations changed the statistic and the p-value.
---
 pycircstat2/hypothesis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6d83463..b486077 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1615,7 +1615,7 @@ def kuiper_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    alpha = np.asarray(alpha, dtype=float)
+    alpha = angmod(np.asarray(alpha, dtype=float))
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
 
@@ -1723,7 +1723,7 @@ def watson_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    alpha = np.asarray(alpha, dtype=float)
+    alpha = angmod(np.asarray(alpha, dtype=float))
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
 
@@ -1821,7 +1821,7 @@ def rao_spacing_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    alpha = np.asarray(alpha, dtype=float)
+    alpha = angmod(np.asarray(alpha, dtype=float))
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
 
-- 
2.43.0


From 99f7fa60291e0e91ca48de29a86a46006399a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:57 +0000
Subject: [PATCH 05/84] fix: asymptotic p-values of the Kuiper and Watson tests
 stay within [0, 1]

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index b486077..daa744b 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1650,7 +1650,7 @@ def kuiper_test(
         a2 = np.exp(-2 * m * Vo**2)
         b1 = 2 * (a1 - 1) * a2
         b2 = 8 * Vo / (3 * f) * m * (a1 - 3) * a2
-        pval = float(np.sum(b1 - b2))
+        pval = float(np.clip(np.sum(b1 - b2), 0.0, 1.0))
     else:
         mode = "simulation"
         rng = _init_rng(seed)
@@ -1752,6 +1752,7 @@ def watson_test(
         mode = "asymptotic"
         m = np.arange(1, 51)
         pval = float(2 * sum((-1) ** (m - 1) * np.exp(-2 * m**2 * np.pi**2 * U2o)))
+        pval = float(np.clip(pval, 0.0, 1.0))
     else:
         mode = "simulation"
         rng = _init_rng(seed)
-- 
2.43.0


From 62bd5e13f45d44e4dfac00fec5c7d745ad8b9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:57 +0000
Subject: [PATCH 06/84] fix: omnibus_test counts both sides of each line

Only the half circle on one side of lines in [0, pi) was counted, so the
statistic depended on the orientation of the sample and n - 2m could become
negative; balanced samples were reported with p = 0.
---
 pycircstat2/hypothesis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index daa744b..d269885 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -799,7 +799,9 @@ def omnibus_test(
     right = n - np.logical_and(
         lines_rotated > 0.0, lines_rotated < np.pi
     ).sum(axis=1)
-    m = int(np.min(right))
+    # and on the other side of the same lines
+    left = n - (lines_rotated > np.pi).sum(axis=1)
+    m = int(np.min([right, left]))
 
     # ------------------------------------------------------------------
     # 2. p-value   ———  analytical formula and its log form
@@ -828,8 +830,9 @@ def omnibus_test(
 
     denom = n - 2 * m
     if denom <= 0:
-        logp = -np.inf
-        pval = 0.0
+        # perfectly balanced: no evidence at all against uniformity
+        logp = 0.0
+        pval = 1.0
         A = np.inf
     else:
         logp = (
-- 
2.43.0


From 610fbbe6eaf8c5a2eecfbc2b6be2f167db10cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:38 +0000
Subject: [PATCH 07/84] fix: two-sample rank tests accept any order and range
 of the observations

watson_u2_test needed each sample sorted (otherwise ValueError or a wrong U2),
both it and wheeler_watson_test merged or crashed on distinct observations that
are within the relative tolerance of np.isclose, angles outside [0, 2pi) were
ranked linearly, and the U2 p-value could exceed 1.
---
 pycircstat2/hypothesis.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index d269885..58b4717 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1107,12 +1107,11 @@ def watson_u2_test(
         raise ValueError("`watson_u2_test` requires exactly two samples.")
 
     def cumfreq(alpha_unique: np.ndarray, sample: _CircularSample) -> np.ndarray:
-        expanded = sample.expand()
+        expanded = np.sort(angmod(sample.expand()))
         if expanded.size == 0:
             raise ValueError("Each sample must contain at least one observation.")
 
-        idx = [np.where(np.isclose(alpha_unique, val, atol=1e-10))[0] for val in expanded]
-        idx = np.concatenate(idx)
+        idx = np.searchsorted(alpha_unique, expanded)
         idx = np.hstack([0, idx, alpha_unique.size])
 
         freq_cumsum = rankdata(expanded, method="max") / sample.n
@@ -1121,7 +1120,7 @@ def watson_u2_test(
         tiles = np.diff(idx)
         return np.repeat(freq_cumsum, tiles)
 
-    expanded_samples = [sample.expand() for sample in normalized]
+    expanded_samples = [angmod(sample.expand()) for sample in normalized]
     a, t = np.unique(np.hstack(expanded_samples), return_counts=True)
     cfs = [cumfreq(a, sample) for sample in normalized]
     d = np.diff(cfs, axis=0)
@@ -1132,7 +1131,7 @@ def watson_u2_test(
         / N**2
         * (np.sum(t * d**2) - np.sum(t * d) ** 2 / N)
     )
-    pval = 2 * np.exp(-19.74 * U2)
+    pval = min(2 * np.exp(-19.74 * U2), 1.0)
     # Approximated P-value from Watson (1961)
     # https://github.com/pierremegevand/watsons_u2/blob/master/watsons_U2_approx_p.m
 
@@ -1186,14 +1185,12 @@ def wheeler_watson_test(
     normalized = _coerce_circular_samples(samples)
 
     def get_circrank(alpha: np.ndarray, sample: _CircularSample, N: int) -> np.ndarray:
-        expanded = sample.expand()
-        rank_of_direction = (
-            np.squeeze([np.where(np.isclose(alpha, value))[0] for value in expanded]) + 1
-        )
+        expanded = angmod(sample.expand())
+        rank_of_direction = np.searchsorted(alpha, expanded) + 1
         return 2 * np.pi / N * rank_of_direction
 
     N = sum(sample.n for sample in normalized)
-    expanded_samples = [sample.expand() for sample in normalized]
+    expanded_samples = [angmod(sample.expand()) for sample in normalized]
     a, _ = np.unique(np.hstack(expanded_samples), return_counts=True)
 
     circ_ranks = [get_circrank(a, sample, N) for sample in normalized]
-- 
2.43.0


From 1894d4a5dd8b7fc0bfe539a077a9f652e8a2944a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:38 +0000
Subject: [PATCH 08/84] fix: Wallraff and angular randomisation tests use the
 frequencies of grouped samples

---
 pycircstat2/hypothesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 58b4717..b6b8564 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1269,7 +1269,7 @@ def wallraff_test(
         angles = angle_arr
 
     ns = [sample.n for sample in normalized]
-    distances = [angular_distance(normalized[i].alpha, angles[i]) for i in range(len(normalized))]
+    distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
     rs = rankdata(np.hstack(distances))
 
@@ -1484,7 +1484,7 @@ def angular_randomisation_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    sample_arrays = [np.asarray(sample.alpha, dtype=float) for sample in normalized]
+    sample_arrays = [np.asarray(sample.expand(), dtype=float) for sample in normalized]
     if any(arr.size == 0 for arr in sample_arrays):
         raise ValueError("Each sample must contain at least one observation.")
 
-- 
2.43.0


From ecd56a32cc6d663a14eac18023bb0402dc041e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 09/84] fix: CircHAC compares magnitudes of the signed "center"
 distance

With the default metric the most negative signed difference was taken as the
smallest distance, so the farthest clusters were merged first.
---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 39a6678..bead0a8 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1412,7 +1412,7 @@ class CircHAC:
             best_pair: Optional[Tuple[int, int]] = None
             for idx, cid_i in enumerate(cluster_ids):
                 for cid_j in cluster_ids[idx + 1 :]:
-                    dist_ij = circ_dist(means[cid_i], means[cid_j], metric=self.metric)
+                    dist_ij = abs(circ_dist(means[cid_i], means[cid_j], metric=self.metric))
                     if dist_ij < best_dist:
                         best_dist = dist_ij
                         best_pair = (cid_i, cid_j)
-- 
2.43.0


From ad0668c5938fc2118a69ab6de8cf79bf947628a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 10/84] fix: CircKMeans.predict after fitting fewer
 observations than clusters

---
 pycircstat2/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index bead0a8..f24134c 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1750,7 +1750,8 @@ class CircKMeans:
             alpha = X
 
         n_samples = len(alpha)
-        dist_mat = np.zeros((self.n_clusters, n_samples))
-        for c in range(self.n_clusters):
+        n_centers = len(self.centers_)
+        dist_mat = np.zeros((n_centers, n_samples))
+        for c in range(n_centers):
             dist_mat[c] = np.abs(circ_dist(alpha, self.centers_[c], metric=self.metric))
         return dist_mat.argmin(axis=0)
-- 
2.43.0


From 4a5a0d827f5b37a5673074c9982abcc1dda178b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 11/84] fix: Circular no longer empties the kwargs_mean_ci dict
 of its caller

---
 pycircstat2/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d06c9e3..145a687 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -183,6 +183,9 @@ class Circular:
             **kwargs.pop("kwargs_median", {}),
         }
         self.kwargs_mean_ci = kwargs_mean_ci = kwargs.pop("kwargs_mean_ci", None)
+        if kwargs_mean_ci is not None:
+            # `method` is popped below; leave the caller's dict alone
+            self.kwargs_mean_ci = kwargs_mean_ci = dict(kwargs_mean_ci)
 
         # data
         self.data = data = np.array(data) if isinstance(data, list) else data
-- 
2.43.0


From f142382456b4a648577ecb020ed3ce804a55145a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 12/84] fix: binning in Circular keeps observations outside [0,
 2pi]

np.histogram silently dropped negative angles and angles beyond one turn.
---
 pycircstat2/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 145a687..40e999e 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -15,7 +15,7 @@ from .descriptive import (
     circ_std,
 )
 from .hypothesis import rayleigh_test
-from .utils import data2rad, rad2data, rotate_data, significance_code
+from .utils import angmod, data2rad, rad2data, rotate_data, significance_code
 from .visualization import circ_plot
 
 __names__ = ["Circular", "Axial"]
@@ -211,8 +211,9 @@ class Circular:
         # bin data usingse np.histogram
         else:
             if isinstance(bins, int) or isinstance(bins, np.ndarray):
+                outside = (alpha < 0) | (alpha > 2 * np.pi)
                 w, alpha = np.histogram(
-                    alpha, bins=bins, range=(0, 2 * np.pi)
+                    np.where(outside, angmod(alpha), alpha), bins=bins, range=(0, 2 * np.pi)
                 )  # np.histogram return bin edges
             self.w = w = np.asarray(w)
             self.alpha_lb = alpha[:-1]  # bin lower bound
-- 
2.43.0


From 350f172718007dc1c15328cc9575c40670fd0e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 13/84] fix: Circular can be built when its default mean
 interval is undefined

Samples on which the bootstrap or dispersion interval is not defined although
the Rayleigh test rejects made the constructor raise; report nan bounds.
---
 pycircstat2/base.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 40e999e..a5342ae 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -259,15 +259,22 @@ class Circular:
             self.mean_ci_level = mean_ci_level = 0.95
 
         if method_mean_ci is not None and mean_pval < 0.05:
-            self.mean_lb, self.mean_ub = mean_lb, mean_ub = circ_mean_ci(
-                alpha=self.alpha,
-                w=self.w,
-                mean=self.mean,
-                r=self.r,
-                n=self.n,
-                ci=mean_ci_level,
-                method=method_mean_ci,
-            )
+            try:
+                mean_lb, mean_ub = circ_mean_ci(
+                    alpha=self.alpha,
+                    w=self.w,
+                    mean=self.mean,
+                    r=self.r,
+                    n=self.n,
+                    ci=mean_ci_level,
+                    method=method_mean_ci,
+                )
+            except ValueError:
+                # the interval chosen by default may be undefined for these data
+                if kwargs_mean_ci is not None:
+                    raise
+                mean_lb, mean_ub = np.nan, np.nan
+            self.mean_lb, self.mean_ub = mean_lb, mean_ub
         else:
             self.mean_lb, self.mean_ub = np.nan, np.nan
 
-- 
2.43.0


From 44ff67f009dbbd1ae0708ffdd3d5ed7e94a921f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 14/84] fix: MoCD.bic evaluates the likelihood in the unit of
 the data

score_samples converts its argument to radians, and bic passed it data already
in radians.
---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index f24134c..de3013b 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1250,7 +1250,7 @@ class MoCD:
     def bic(self) -> float:
         if self.alpha is None or self.p_ is None or self.params_ is None:
             raise ValueError("Model must be fitted before computing BIC.")
-        log_likelihood = self.score_samples(self.alpha)
+        log_likelihood = self.score_samples(self.data)
         nLL = -float(np.sum(log_likelihood))
         n_params_component = len(self.param_names)
         n_params_total = self.n_clusters * n_params_component + (self.n_clusters - 1)
-- 
2.43.0


From 5bf68ff85eb82d875907fc2d1c63797a8be55779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 15/84] fix: strict mode of circ_corrcc reads the p-value of
 the mean

Circular has no attribute mean_pval, so method="js" never refused uniform data.
---
 pycircstat2/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 535fb87..6af3ae3 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -95,7 +95,7 @@ def _coerce_angles(
     """Return angle array (in radians) and mean p-value if available."""
 
     if isinstance(data, Circular):
-        return np.asarray(data.alpha, dtype=float), getattr(data, "mean_pval", None)
+        return np.asarray(data.alpha, dtype=float), data.mean_test_result.pval
 
     array = np.asarray(data, dtype=float)
     if array.ndim == 0:
-- 
2.43.0


From 6cedd57727493f88df648ba74dab64fb16f34592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 16/84] fix: nonparametric circ_corrcc ranks angles, not raw
 values

---
 pycircstat2/correlation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 6af3ae3..8cd78bf 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -6,6 +6,7 @@ from scipy.stats import chi2, norm, rankdata
 
 from .base import Circular
 from .descriptive import circ_mean
+from .utils import angmod
 
 
 @dataclass
@@ -261,8 +262,8 @@ def _circ_corrcc_np(
         raise ValueError("At least three paired observations are required for the nonparametric test.")
     C = 2 * np.pi / n
 
-    rank_a = rankdata(a_alpha)
-    rank_b = rankdata(b_alpha)
+    rank_a = rankdata(angmod(a_alpha))
+    rank_b = rankdata(angmod(b_alpha))
     rank_diff = rank_a - rank_b
     rank_sum = rank_a + rank_b
 
-- 
2.43.0


From 8bb8dcac6788c1155a45ac5e59a7318a3d561519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:36 +0000
Subject: [PATCH 17/84] fix: circ_kappa with r = 0 and a small sample size

---
 pycircstat2/descriptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index bb4da8a..acb5440 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1405,7 +1405,9 @@ def circ_kappa(r: float, n: Union[int, None] = None) -> float:
     # eq 4.41
     if n is not None:
         if n <= 15 and r < 0.7:
-            if kappa < 2:
+            if kappa == 0:
+                pass
+            elif kappa < 2:
                 kappa = np.max([kappa - 2 * 1 / (n * kappa), 0])
             else:
                 kappa = (n - 1) ** 3 * kappa / (n**3 + n)
-- 
2.43.0


From b35e67d5beaac573dc38e68754875acd9c262079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:27 +0000
Subject: [PATCH 18/84] fix: nonparametric density of angles outside [0, 2pi)

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index acb5440..73e5efb 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1695,7 +1695,7 @@ def nonparametric_density_estimation(
     """
 
     # vectorized version of step 3
-    a = np.asarray(alpha, dtype=float)
+    a = angmod(np.asarray(alpha, dtype=float))
     n = len(a)
     x = np.linspace(0, 2 * np.pi, 100)
     d = np.abs(x[:, None] - a)
-- 
2.43.0


From 6cfc2492141082d6c891a79aa6866d1c697b53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:27 +0000
Subject: [PATCH 19/84] fix: bootstrap interval of the mean uses the
 frequencies of grouped data

---
 pycircstat2/descriptive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 73e5efb..584fa42 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -922,6 +922,8 @@ def circ_mean_ci(
 
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
+        if w is not None:  # resample observations, not bins
+            alpha = np.repeat(alpha, np.asarray(w).astype(int))
         (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci)
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
-- 
2.43.0


From 54c96206949832e112633eee348f7aea3bbe3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:39 +0000
Subject: [PATCH 20/84] fix: cdf snaps to 1 only at the upper end point itself

With the default rtol everything within 6e-5 rad of 2pi was assigned cdf 1,
which is wrong by 1% for a concentrated wrapped Cauchy located at the origin.
---
 pycircstat2/distributions.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 636a90c..235ec36 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1888,10 +1888,10 @@ class cartwright_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        result[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, zeta, *args, **kwargs):
@@ -2395,9 +2395,9 @@ class wrapnorm_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         rho_clipped = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
@@ -2406,10 +2406,10 @@ class wrapnorm_gen(CircularContinuous):
         cdf_flat, _ = self._wrapnorm_cdf_pdf(flat, mu_val, sigma)
         if arr.ndim == 0:
             value = float(cdf_flat.reshape(-1)[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf_flat.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -2944,9 +2944,9 @@ class wrapcauchy_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
         reshaped = cdf.reshape(arr.shape)
-        reshaped[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        reshaped[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return reshaped
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -3400,9 +3400,9 @@ class vonmises_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         denom = i0(kappa_val)
@@ -3445,10 +3445,10 @@ class vonmises_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, kappa, *args, **kwargs):
@@ -7621,7 +7621,7 @@ class wrapstable_gen(CircularContinuous):
         # Ensure exact endpoints
         two_pi = 2.0 * np.pi
         cdf_vals[np.isclose(theta_flat[0], 0.0, atol=1e-12)] = 0.0
-        cdf_vals[np.isclose(theta_flat[0], two_pi, atol=1e-12)] = 1.0
+        cdf_vals[np.isclose(theta_flat[0], two_pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_vals.reshape(-1)[0])
@@ -8221,7 +8221,7 @@ class katojones_gen(CircularContinuous):
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
-        cdf_flat[np.isclose(flat, 2.0 * np.pi, atol=1e-12)] = 1.0
+        cdf_flat[np.isclose(flat, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_flat[0])
-- 
2.43.0


From f49cbb5a50b25a65942f7efe537efc8b8d632d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:39 +0000
Subject: [PATCH 21/84] fix: wrapnorm.pdf of concentrated laws

Thirty terms of the cosine series are far from converged as rho approaches 1:
the density became negative and disagreed with the cdf.
---
 pycircstat2/distributions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 235ec36..173beb3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2294,11 +2294,18 @@ class wrapnorm_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (
+        series = (
             1
             + 2
             * np.sum([rho ** (p**2) * np.cos(p * (x - mu)) for p in range(1, 30)], 0)
         ) / (2 * np.pi)
+        # the series converges too slowly for concentrated laws; sum the wraps
+        with np.errstate(divide="ignore", invalid="ignore"):
+            sigma = np.sqrt(-2.0 * np.log(rho))
+            wraps = np.sum(
+                [np.exp(-0.5 * ((x - mu + 2 * np.pi * k) / sigma) ** 2) for k in range(-3, 4)], 0
+            ) / (sigma * np.sqrt(2 * np.pi))
+        return np.where(np.asarray(rho) > 0.9, wraps, series)
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
-- 
2.43.0


From 946ff3a6403a03171eab4f2c236cc0b281140cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:39 +0000
Subject: [PATCH 22/84] fix: katojones.cdf in the cardioid case and next to the
 end points

For rho = 0 the first harmonic was dropped, so the cdf was that of the uniform
law, and reducing modulo 1 turned rounding errors around 0 and 1 into jumps.
---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 173beb3..24bc293 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8224,7 +8224,7 @@ class katojones_gen(CircularContinuous):
         else:
             series = self._get_series_terms(mu_val, gamma_val, rho_val, lam_val)
             cdf_raw = self._evaluate_cdf_series(flat, mu_val, gamma_val, rho_val, lam_val, series=series)
-            cdf_flat = np.mod(cdf_raw, 1.0)
+            cdf_flat = np.asarray(cdf_raw, dtype=float)
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
@@ -8667,7 +8667,7 @@ class katojones_gen(CircularContinuous):
         return cache[key]
 
     def _compute_series_terms(self, mu, gamma, rho, lam):
-        if gamma <= _KJ_GAMMA_TOL or rho <= _KJ_GAMMA_TOL:
+        if gamma <= _KJ_GAMMA_TOL:
             return {
                 "coeffs": np.empty(0, dtype=float),
                 "phases": np.empty(0, dtype=float),
-- 
2.43.0


From 5402b0cfa66fb73c85566e5402c5a7766785b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:39 +0000
Subject: [PATCH 23/84] fix: jonespewsey_sineskewed cdf and ppf for vanishing
 kappa

The cdf was anchored at xi instead of 0 and the ppf ignored the skewness.
---
 pycircstat2/distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 24bc293..2fe396f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5580,9 +5580,8 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
 
         if kappa_val < _JP_KAPPA_TOL:
-            phi = (flat - xi_val) % two_pi
-            base = phi / two_pi
-            skew = (1.0 - np.cos(phi)) / (2.0 * np.pi)
+            base = flat / two_pi
+            skew = (np.cos(xi_val) - np.cos(flat - xi_val)) / (2.0 * np.pi)
             cdf = base + lmbd_val * skew
             return np.clip(cdf, 0.0, 1.0).reshape(arr.shape)
 
@@ -5658,7 +5657,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                 q_int = q_valid[interior]
                 eps = 1e-15
                 q_clipped = np.clip(q_int, eps, 1.0 - eps)
-                if kappa_val < _JP_KAPPA_TOL:
+                if kappa_val < _JP_KAPPA_TOL and abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = two_pi * q_clipped
                 elif abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = jonespewsey.ppf(
-- 
2.43.0


From 940cfeabcde6b086a676952184216f429c28c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:39 +0000
Subject: [PATCH 24/84] fix: wrapstable.cdf no longer turns rounding errors
 below 0 into 1

---
 pycircstat2/distributions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2fe396f..c6f2d91 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7621,7 +7621,6 @@ class wrapstable_gen(CircularContinuous):
 
         anchor = (1.0 / np.pi) * np.sum((rho_vals / p_vals) * np.sin(-mu_vals))
         cdf_vals = cdf_vals - anchor
-        cdf_vals = np.where(cdf_vals < 0.0, cdf_vals + 1.0, cdf_vals)
         cdf_vals = np.clip(cdf_vals, 0.0, 1.0)
 
         # Ensure exact endpoints
-- 
2.43.0


From de6f578d9b4aa4136a01bb437220edf0f77ba5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:39 +0000
Subject: [PATCH 25/84] fix: wrapstable samples the law that its density
 describes

For alpha != 1 the S1 sample was shifted back to the S0 location, so rvs was
rotated against pdf by gamma * beta * tan(pi alpha / 2); for alpha = 1 the phase
of the density had the opposite sign (it is not the limit alpha -> 1).
---
 pycircstat2/distributions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index c6f2d91..c85b903 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7828,8 +7828,8 @@ class wrapstable_gen(CircularContinuous):
         phi2 = phi2_raw + 2.0 * np.pi * round((2.0 * phi1 - phi2_raw) / (2.0 * np.pi))
 
         if abs(alpha_mom - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            B1 = (2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
-            B2 = (2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
+            B1 = -(2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
+            B2 = -(2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
             denom = B2 - 2.0 * B1
             if abs(denom) < 1e-8:
                 beta_mom = 0.0
@@ -8022,7 +8022,7 @@ class wrapstable_gen(CircularContinuous):
         rho_vals = np.exp(-((gamma * p) ** alpha))
 
         if abs(alpha - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            mu_vals = delta * p + (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
+            mu_vals = delta * p - (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
         else:
             mu_vals = delta * p + beta * np.tan(0.5 * np.pi * alpha) * (
                 (gamma * p) ** alpha - gamma * p
@@ -8068,8 +8068,7 @@ def _wrapstable_sample_linear(alpha, beta, gamma, delta, *, size, rng):
         delta_s1 = delta - gamma * beta * tan_term
         part1 = np.sin(alpha * (V + theta0)) / (np.cos(V) ** (1.0 / alpha))
         part2 = (np.cos(V - alpha * (V + theta0)) / W) ** ((1.0 - alpha) / alpha)
-        x_s1 = gamma * factor * part1 * part2 + delta_s1
-        x = x_s1 + (delta - delta_s1)
+        x = gamma * factor * part1 * part2 + delta_s1
     else:
         factor = 2.0 / np.pi
         delta_s1 = delta - factor * beta * gamma * np.log(gamma)
-- 
2.43.0


From 0582cefc8d3c7b4a7e8d53cecf321c206a78e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:39 +0000
Subject: [PATCH 26/84] fix: inverse_batschelet.pdf does not depend on earlier
 cdf calls

Building the table of one nu overwrote the normaliser shared by every nu.
---
 pycircstat2/distributions.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index c85b903..f923a1b 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7287,8 +7287,6 @@ class inverse_batschelet_gen(CircularContinuous):
             pdf *= scale
             log_norm += np.log(scale)
             mass = 1.0
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = np.exp(log_norm)
 
         avg = 0.5 * (pdf[:-1] + pdf[1:])
         cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
-- 
2.43.0


From 46156b5d026bcfddc8fd8905db72d2aaf825a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:58 +0000
Subject: [PATCH 27/84] fix: bootstrap interval of the mean turns with the data

eq. (8.27) of Fisher (1993) adds 1 to the squared ratio, not to its
denominator; without it the transformation is no matrix square root and the
interval depends on where zero lies.
---
 pycircstat2/descriptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 584fa42..da603bd 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1138,7 +1138,7 @@ def _circ_mean_ci_bootstrap(
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq (8.27)
 
     denom = np.sqrt(1 + beta_param**2)
@@ -1187,7 +1187,7 @@ def _circ_mean_resample(alpha, z0, v0):
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq(8.27)
 
     denom = np.sqrt(1 + beta_param**2)
-- 
2.43.0


From c39f5f2cdfb8f1f180a5091e5355761f2c63e3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:23 +0000
Subject: [PATCH 28/84] fix: grouped circ_median with an odd number of bins

The bin cut in two by the half circle lies (m + 1) / 2 bins further on, not
two bins back, and half of it belongs to the left side.
---
 pycircstat2/descriptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index da603bd..424f89d 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -633,8 +633,8 @@ def _circ_median_grouped(
     halfcircle_left = n - halfcircle_right
 
     if n_bins % 2 != 0:
-        offset = np.roll(w, 2) / 2  # remove half of the previous bin freq
-        halfcircle_left = halfcircle_left - offset
+        offset = np.roll(w, (n_bins - 1) // 2) / 2  # half of the bin cut by the half circle
+        halfcircle_left = halfcircle_left + offset
 
     # find where half-freq located.
     halffreq = np.round(n / 2, 5)
-- 
2.43.0


From ca27c1f1a69d97b0e81e191c0bdc70f77c330ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:47 +0000
Subject: [PATCH 29/84] fix: count median of tied observations recorded in
 different turns

---
 pycircstat2/descriptive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 424f89d..0d23f76 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -676,6 +676,8 @@ def _circ_median_grouped(
 def _circ_median_count(alpha: np.ndarray) -> Union[float,np.ndarray]:
     n = len(alpha)
     alpha_rotated = np.round(angmod((alpha[:, None] - alpha)), decimals=5)
+    # a point a rounding error before the origin lies on the origin
+    alpha_rotated[alpha_rotated == np.round(2 * np.pi, 5)] = 0.0
 
     # count number of points on the right (0, 180), excluding the boundaries
     right = np.logical_and(alpha_rotated > 0.0, alpha_rotated < np.round(np.pi, 5)).sum(
-- 
2.43.0


From c5b8a7cddb57c3f40d36055bfb7d1b7dd8b598b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:02 +0000
Subject: [PATCH 30/84] fix: grouped circ_median when only one candidate
 interval is filled

---
 pycircstat2/descriptive.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 0d23f76..a464643 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -647,22 +647,26 @@ def _circ_median_grouped(
         ),
     )[0]
 
+    # remove empty bins.
+    idx_filled = idx[halfcircle_range[idx, 0] != halfcircle_range[idx, 1]]
+
     # if number of potential median is the same as the number of data points,
     # meaning that the data is more or less uniformly distributed. Return NaN.
     if len(idx) == len(halfcircle_range):
         median = np.nan
+    # only empty bins
+    elif len(idx_filled) == 0:
+        median = np.nan
     # get base interval, lower and upper freq
-    elif len(idx) == 1:
-        freq_lower, freq_upper = np.sort(halfcircle_range[idx][0])
-        base = alpha_ub[idx][0]
+    elif len(idx_filled) == 1:
+        freq_lower, freq_upper = np.sort(halfcircle_range[idx_filled][0])
+        base = alpha_ub[idx_filled][0]
         ratio = (halffreq - freq_lower) / (freq_upper - freq_lower)
         median = base + bin_size * ratio
     else:
-        # remove empty bins.
-        select = halfcircle_range[idx, 0] != halfcircle_range[idx, 1]
         # find outer bounds.
-        lower = alpha_ub[idx[select][0]] + bin_size
-        upper = alpha_ub[idx[select][1]]
+        lower = alpha_ub[idx_filled[0]] + bin_size
+        upper = alpha_ub[idx_filled[1]]
         # circular mean of two opposite points will always be NaN.
         # in this case, we use the inner bounds instead of the outer.
         if np.isclose(upper - lower, np.pi):
-- 
2.43.0


From 6de675aa4699f818c49446e45114d235be303279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:21 +0000
Subject: [PATCH 31/84] fix: circ_median of coincident points lies in [0, 2pi)

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index a464643..3e23b6a 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -580,7 +580,7 @@ def circ_median(
     if np.isclose(circ_r(alpha, w), 1.0, rtol=0.0, atol=1e-12):
         if verbose:
             print("All points coincide, returning the first point as median.")
-        return alpha[0]
+        return angmod(alpha[0])
 
     # grouped data
     if not np.all(w == 1):
-- 
2.43.0


From 1448c3f012f3fb70c61b84eb9a35ec9c0c8651d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:46 +0000
Subject: [PATCH 32/84] fix: no interval for an undefined circular median

---
 pycircstat2/descriptive.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 3e23b6a..b2ae7ee 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1278,7 +1278,11 @@ def circ_median_ci(
         # order statistics around the circle, starting opposite to the median
         alpha = alpha[np.argsort(angmod(alpha - (median + np.pi)), kind="stable")]
 
-    if n > 15:
+    if np.isnan(median):
+        # no order statistics around an undefined median
+        lower, upper = np.nan, np.nan
+
+    elif n > 15:
         z = norm.ppf(1 - 0.5 * (1 - ci))
 
         offset = int(1 + np.floor(0.5 * np.sqrt(n) * z))  # fisher:eq(4.19)
-- 
2.43.0


From 705523555c797f12080f6a287e4979d1eb7cf7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:46 +0000
Subject: [PATCH 33/84] fix: circ_quantile of integer probabilities with an
 undefined median

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index b2ae7ee..f347a1d 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1781,7 +1781,7 @@ def circ_quantile(
 
     # Convert to numpy array
     alpha = np.asarray(alpha)
-    probs = np.atleast_1d(probs)
+    probs = np.atleast_1d(np.asarray(probs, dtype=float))
 
     # Compute circular median
     circular_median = circ_median(alpha)
-- 
2.43.0


From e7ab721fd7d4cab2f6357a4a17f968e82f3985a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:38 +0000
Subject: [PATCH 34/84] fix: median interval that ends at the median is not
 turned inside out

---
 pycircstat2/descriptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index f347a1d..2470af1 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1309,7 +1309,8 @@ def circ_median_ci(
 
         lower, upper = alpha[int(idx_lb)], alpha[int(idx_ub)]
 
-        if not is_within_circular_range(median, lower, upper):
+        # (to 5 decimals, as above: a bound may be the median itself)
+        if not is_within_circular_range(median, lower - 1e-5, upper + 1e-5):
             lower, upper = upper, lower
 
     # selected confidence intervals for the median direction for n < 15
-- 
2.43.0


From abf069b0d56d1402f811e6f9f50637c7b9258228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:53 +0000
Subject: [PATCH 35/84] fix: resultant length of coincident angles does not
 exceed 1

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 2470af1..40d4e91 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -43,7 +43,7 @@ def circ_r(
         w = np.ones_like(alpha) if w is None else w
         Cbar, Sbar = compute_C_and_S(alpha, w)
 
-    r = np.sqrt(Cbar**2 + Sbar**2)
+    r = np.minimum(np.sqrt(Cbar**2 + Sbar**2), 1.0)  # not above 1 by rounding
 
     return r
 
-- 
2.43.0


From 106828d65d813cdfb6aaabc17e5fdcf2ef4cdb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:56 +0000
Subject: [PATCH 36/84] fix: asymptotic p-value of kuiper_test applies its
 small-sample correction once

---
 pycircstat2/hypothesis.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index b6b8564..c6c61d6 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1645,11 +1645,14 @@ def kuiper_test(
     if n_simulation == 1:
         # asymptotic p-value
         mode = "asymptotic"
+        # (Kuiper's expansion is in sqrt(n) * (D+ + D-), not in the modified V)
+        root_n = np.sqrt(n)
+        Vn = Vo / f * root_n
         m = (np.arange(1, 50, dtype=float)) ** 2
-        a1 = 4 * m * Vo**2
-        a2 = np.exp(-2 * m * Vo**2)
+        a1 = 4 * m * Vn**2
+        a2 = np.exp(-2 * m * Vn**2)
         b1 = 2 * (a1 - 1) * a2
-        b2 = 8 * Vo / (3 * f) * m * (a1 - 3) * a2
+        b2 = 8 * Vn / (3 * root_n) * m * (a1 - 3) * a2
         pval = float(np.clip(np.sum(b1 - b2), 0.0, 1.0))
     else:
         mode = "simulation"
-- 
2.43.0


From e5086e49449d16535e982ffdca4210caf62e7fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:56 +0000
Subject: [PATCH 37/84] fix: angular_randomisation_test counts permutations
 equal to the observed split

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index c6c61d6..89d4ae6 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1546,7 +1546,8 @@ def angular_randomisation_test(
         perm_stat = art_statistic(perm_S1, perm_S2)
 
         # Count if permuted statistic is >= observed (one-sided test)
-        if perm_stat >= observed_stat:
+        # (the same split summed in another order may differ by rounding)
+        if perm_stat >= observed_stat * (1 - 1e-12):
             n_extreme += 1
 
     # Compute p-value as in equation (4.3)
-- 
2.43.0


From 734c53331293ab5150568a45782cd31a9a74ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:14 +0000
Subject: [PATCH 38/84] fix: wallraff_test ranks angular distances of equal
 size as ties

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 89d4ae6..1f9488b 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1271,7 +1271,8 @@ def wallraff_test(
     ns = [sample.n for sample in normalized]
     distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
-    rs = rankdata(np.hstack(distances))
+    # distances of equal size on either side of the angle must be recognised as ties
+    rs = rankdata(np.round(np.hstack(distances), 10))
 
     N = np.sum(ns)
 
-- 
2.43.0


From f2282f11db0851c38d368c2bb8d0f09ff8e1b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:06 +0000
Subject: [PATCH 39/84] fix: symmetry_test ranks deviations of equal size as
 ties

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 1f9488b..e8eae58 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -947,7 +947,8 @@ def symmetry_test(
     else:
         median = float(median)
 
-    d = angmod(alpha - median, bounds=[-np.pi, np.pi])
+    # deviations of equal size must be recognised as ties (and the median as zero)
+    d = np.round(angmod(alpha - median, bounds=[-np.pi, np.pi]), 10)
 
     res = wilcoxon(d, alternative="two-sided")
     test_statistic = float(res.statistic)
-- 
2.43.0


From d2170f4e16d2083caf2153fcc199669f2da23090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:12 +0000
Subject: [PATCH 40/84] fix: common_median_test does not count the median
 itself by rounding

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index e8eae58..e558534 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2716,7 +2716,8 @@ def common_median_test(
     # Compute deviations from the common median
     m = np.zeros(k, dtype=float)
     for i, group in enumerate(arrays):
-        deviations = circ_dist(group, common_median)
+        # (the observation at the median itself deviates by zero, not by rounding)
+        deviations = np.round(circ_dist(group, common_median), 10)
         m[i] = np.sum(deviations < 0)
 
     # Compute test statistic
-- 
2.43.0


From 7f034bd618b71f163355d87d6b8d2f23db8514b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:59 +0000
Subject: [PATCH 41/84] fix: harrison_kanji_test accepts factor levels that are
 not numbers

---
 pycircstat2/hypothesis.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index e558534..dd8f985 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2413,14 +2413,14 @@ def harrison_kanji_test(
     cr = cr.unstack(fn[1])
 
     # Factor A
-    gr = df.groupby(fn[0])
-    pn = gr.count()["dependent"]
-    pr = gr.agg(circ_r)["dependent"] * pn
+    gr = df.groupby(fn[0])["dependent"]
+    pn = gr.count()
+    pr = gr.agg(circ_r) * pn
 
     # Factor B
-    gr = df.groupby(fn[1])
-    qn = gr.count()["dependent"]
-    qr = gr.agg(circ_r)["dependent"] * qn
+    gr = df.groupby(fn[1])["dependent"]
+    qn = gr.count()
+    qr = gr.agg(circ_r) * qn
 
     if kk > 2:  # Large kappa approximation
         eff_1 = sum(pr**2 / np.sum(cn, axis=1)) - tr**2 / n
-- 
2.43.0


From cf280112a06fb6a48cad0a6f70789d7e4827a24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:23 +0000
Subject: [PATCH 42/84] fix: equal_kappa_test and concentration_test refuse
 groups without spread whatever the rounding

---
 pycircstat2/hypothesis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index dd8f985..fdacda3 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2098,7 +2098,8 @@ def concentration_test(
     df2 = n2 - 1
     numerator = df2 * (n1 - R1)
     denominator = df1 * (n2 - R2)
-    if denominator <= 0 or numerator <= 0:
+    # (zero up to the rounding of the resultant lengths)
+    if n1 - R1 <= 1e-14 * n1 or n2 - R2 <= 1e-14 * n2:
         raise ValueError("Degenerate data: cannot compute concentration test statistic.")
     f_stat = numerator / denominator
 
@@ -2622,7 +2623,8 @@ def equal_kappa_test(samples: list[np.ndarray], verbose: bool = False) -> EqualK
         d = 1 / (3 * (k - 1)) * (np.sum(1 / vs) - 1 / v)
         total_residual = N - np.sum(Rs)
         residuals = ns - Rs
-        if np.any(residuals <= 0):
+        # (zero up to the rounding of the resultant lengths)
+        if np.any(residuals <= 1e-14 * ns):
             raise ValueError("Degenerate data: within-group dispersion is zero.")
         if total_residual <= 0:
             raise ValueError("Degenerate data: between-group dispersion is zero.")
-- 
2.43.0


From 42194e1ea79af5bf44337dfb3de8ebb6451112fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:42 +0000
Subject: [PATCH 43/84] fix: circ_anova likelihood ratio with a group whose
 mean direction is undefined

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index fdacda3..cc4eb06 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1402,7 +1402,8 @@ def circ_anova(
     elif method == "LRT":
         # Compute test statistic
         term1 = 1 - (1 / (4 * kappa_value)) * (sum(1 / ns) - 1 / N)
-        term2 = 2 * kappa_value * np.sum(Rs * (1 - np.cos(mus - mu_all)))
+        # sum(Rs * (1 - cos(mus - mu_all))), also where a group has no mean direction
+        term2 = 2 * kappa_value * (np.sum(Rs) - R_all)
         chi_square_stat = term1 * term2
 
         df = k - 1
-- 
2.43.0


From 6d27949aade59c46c72d452966352a70be66c48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:34 +0000
Subject: [PATCH 44/84] fix: CLRegression mixed model updates beta towards the
 stationary point of its likelihood

---
 pycircstat2/regression.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 53410f6..dea1582 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -270,15 +270,14 @@ class CLRegression:
                 S = np.sum(kappa * np.sin(raw_deviation))
                 C = np.sum(kappa * np.cos(raw_deviation))
                 mu = np.arctan2(S, C)
-                residuals = theta - mu
 
                 # Step 2: Update beta
                 denom = 1 + (X @ beta) ** 2
                 G = 2 * X / denom[:, None]
                 weights_beta = kappa * self._A1(kappa)
                 XtWX_beta = G.T @ (weights_beta[:, None] * G)
-                rhs_beta = G.T @ (weights_beta * np.sin(residuals))
-                beta_new = _safe_solve(
+                rhs_beta = G.T @ (kappa * np.sin(raw_deviation - mu))
+                beta_new = beta + _safe_solve(
                     XtWX_beta + 1e-8 * np.eye(X.shape[1]), rhs_beta
                 )
 
-- 
2.43.0


From da4d109ab39e52f1e4a4ccab62aeaf2c089e9b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 45/84] fix: CircKMeans keeps a center whose members have no
 mean direction

---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index de3013b..5c89b25 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1698,7 +1698,8 @@ class CircKMeans:
                 if np.any(mask):
                     # circular mean of assigned points
                     m, _ = circ_mean_and_r(alpha[mask])
-                    new_centers[c] = m
+                    # an undefined mean (balanced members) leaves the center where it is
+                    new_centers[c] = m if np.isfinite(m) else centers[c]
                 else:
                     # if no points assigned, keep old center or random re-init
                     new_centers[c] = centers[c]
-- 
2.43.0


From b583d09a05c5ea1304898a007c8b3786a24bff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 46/84] fix: CircHAC.silhouette_score leaves an observation out
 of its own cluster's mean distance

---
 pycircstat2/clustering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 5c89b25..5e93109 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1562,7 +1562,8 @@ class CircHAC:
             in_cluster_i = (labels == c_i)
             # average distance to own cluster
             # excluding the point itself
-            a_i = pairwise[i, in_cluster_i].mean() if in_cluster_i.sum() > 1 else 0.0
+            n_own = in_cluster_i.sum()
+            a_i = pairwise[i, in_cluster_i].sum() / (n_own - 1) if n_own > 1 else 0.0
 
             # find min average distance to another cluster
             b_i = np.inf
-- 
2.43.0


From 6e4f7ad72269befc0469c6a28673adfd652e78f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 47/84] fix: CircHAC.silhouette_score counts a cluster of one
 as 0, not as 1

---
 pycircstat2/clustering.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 5e93109..1b22cf7 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1563,7 +1563,9 @@ class CircHAC:
             # average distance to own cluster
             # excluding the point itself
             n_own = in_cluster_i.sum()
-            a_i = pairwise[i, in_cluster_i].sum() / (n_own - 1) if n_own > 1 else 0.0
+            if n_own < 2:
+                continue  # the silhouette of a cluster of one is 0 (Rousseeuw, 1987)
+            a_i = pairwise[i, in_cluster_i].sum() / (n_own - 1)
 
             # find min average distance to another cluster
             b_i = np.inf
-- 
2.43.0


From 35dc99b59484779d0b1821f3992d8c9be9494e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 48/84] fix: cdf and sf of cartwright, wrapnorm and wrapcauchy
 accept arrays of angles

---
 pycircstat2/distributions.py | 43 ++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index f923a1b..589500f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -103,6 +103,17 @@ OPTIMIZERS = [
 ]
 
 
+def _scalar_parameter(value, dist_name):
+    """
+    Single value of a parameter that SciPy may have broadcast against the points.
+    """
+    arr = np.asarray(value, dtype=float)
+    first = float(arr.reshape(-1)[0])
+    if arr.size > 1 and not np.all(arr == first):
+        raise ValueError(f"{dist_name} parameters must be scalar-valued.")
+    return first
+
+
 class CircularContinuous(rv_continuous):
     """
     Base class for circular distributions with fixed loc=0 and scale=1.
@@ -1848,13 +1859,8 @@ class cartwright_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-        if mu_arr.size != 1 or zeta_arr.size != 1:
-            raise ValueError("cartwright parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = _scalar_parameter(mu, "cartwright")
+        zeta_val = _scalar_parameter(zeta, "cartwright")
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2389,13 +2395,8 @@ class wrapnorm_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-        if mu_arr.size != 1 or rho_arr.size != 1:
-            raise ValueError("wrapnorm parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = _scalar_parameter(mu, "wrapnorm")
+        rho_val = _scalar_parameter(rho, "wrapnorm")
         two_pi = 2.0 * np.pi
 
         if rho_val <= 1e-12:
@@ -2919,19 +2920,13 @@ class wrapcauchy_gen(CircularContinuous):
         arr = np.asarray(wrapped, dtype=float)
         flat = arr.reshape(-1)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        if mu_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_arr = np.asarray(rho, dtype=float)
-        if rho_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        rho_val = float(rho_arr.reshape(-1)[0])
-        rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
-
         if flat.size == 0:
             return arr.astype(float)
 
+        mu_val = _scalar_parameter(mu, "wrapcauchy")
+        rho_val = _scalar_parameter(rho, "wrapcauchy")
+        rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
+
         two_pi = 2.0 * np.pi
         A = (1.0 + rho_val) / (1.0 - rho_val)
 
-- 
2.43.0


From 8e4dbbda1a72e26951c75cd2abd76e74e8c9a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 49/84] fix: quantiles refuse parameter arrays instead of using
 their first entry

---
 pycircstat2/distributions.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 589500f..962e236 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1474,11 +1474,8 @@ class cardioid_gen(CircularContinuous):
         return result
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_scalar_parameter(mu, "cardioid"), 2.0 * np.pi))
+        rho_val = _scalar_parameter(rho, "cardioid")
         if not (0.0 <= rho_val <= 0.5):
             raise ValueError("`rho` must lie in [0, 0.5].")
 
@@ -1924,11 +1921,8 @@ class cartwright_gen(CircularContinuous):
         return super().cdf(x, mu, zeta, *args, **kwargs)
 
     def _ppf(self, q, mu, zeta):
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_scalar_parameter(mu, "cartwright"), 2.0 * np.pi))
+        zeta_val = _scalar_parameter(zeta, "cartwright")
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2451,11 +2445,8 @@ class wrapnorm_gen(CircularContinuous):
         return super().cdf(x, mu, rho, *args, **kwargs)
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_scalar_parameter(mu, "wrapnorm"), 2.0 * np.pi))
+        rho_val = _scalar_parameter(rho, "wrapnorm")
         two_pi = 2.0 * np.pi
 
         q_arr = np.asarray(q, dtype=float)
@@ -2980,11 +2971,8 @@ class wrapcauchy_gen(CircularContinuous):
         return float(H) if np.isscalar(phi) else H
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_scalar_parameter(mu, "wrapcauchy"), 2.0 * np.pi))
+        rho_val = _scalar_parameter(rho, "wrapcauchy")
         if not (0.0 <= rho_val < 1.0):
             raise ValueError("`rho` must lie in [0, 1).")
 
@@ -3487,11 +3475,8 @@ class vonmises_gen(CircularContinuous):
         return super().cdf(x, mu, kappa, *args, **kwargs)
 
     def _ppf(self, q, mu, kappa):
-        mu_arr = np.asarray(mu, dtype=float)
-        kappa_arr = np.asarray(kappa, dtype=float)
-        
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        kappa_val = float(kappa_arr.reshape(-1)[0])
+        mu_val = float(np.mod(_scalar_parameter(mu, "vonmises"), 2.0 * np.pi))
+        kappa_val = _scalar_parameter(kappa, "vonmises")
         if kappa_val < 0.0:
             raise ValueError("`kappa` must be non-negative.")
 
-- 
2.43.0


From 60fd556eca3153c43f5e0edc51c6431fc47c59e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 50/84] fix: logcdf and logsf of the distributions whose cdf
 needs scalar parameters

---
 pycircstat2/distributions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 962e236..52cadf3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -436,6 +436,14 @@ class CircularContinuous(rv_continuous):
         call_kwargs = self._prepare_call_kwargs(kwargs, "logsf")
         return super().logsf(self._wrap_angles(x), *args, **call_kwargs)
 
+    def _logcdf(self, x, *args):
+        with np.errstate(divide="ignore"):
+            return np.log(self._cdf(x, *args))
+
+    def _logsf(self, x, *args):
+        with np.errstate(divide="ignore"):
+            return np.log(self._sf(x, *args))
+
     def nnlf(self, theta, x):
         return super().nnlf(theta, self._wrap_angles(x))
 
-- 
2.43.0


From 549bb20569b682991117516a6598efdc54492ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 51/84] fix: Jones-Pewsey normalising constant (lpmv is wrong
 for z > 1)

---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 52cadf3..d7856d2 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -18,7 +18,7 @@ from scipy.special import (
     betaincinv,
     gammaln,
     digamma,
-    lpmv,
+    hyp2f1,
     logsumexp,
 )
 from scipy.stats import rv_continuous
@@ -5444,7 +5444,7 @@ def _jp_legendre_normalizer(kappa, psi):
     A = kappa * psi
     z = np.cosh(A)
     try:
-        legendre = lpmv(0, nu, z)
+        legendre = hyp2f1(-nu, nu + 1.0, 1.0, 0.5 * (1.0 - z))
     except ValueError:
         return np.nan
 
-- 
2.43.0


From 480aa239bce573c92766ca7e3e4eeda52458a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 52/84] fix: katojones.ppf returned 2*pi for every q above
 0.99999

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index d7856d2..f1a5c52 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8317,7 +8317,7 @@ class katojones_gen(CircularContinuous):
             if np.isclose(q_val, 0.0, atol=1e-12):
                 result[idx] = 0.0
                 continue
-            if np.isclose(q_val, 1.0, atol=1e-12):
+            if np.isclose(q_val, 1.0, rtol=0.0, atol=1e-12):
                 result[idx] = two_pi
                 continue
 
-- 
2.43.0


From dfd5583291888d531fc6b6ecf493e17c29b40b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 53/84] fix: negative kappa is refused by every function of
 inverse_batschelet and vonmises_flattopped

---
 pycircstat2/distributions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index f1a5c52..48f1c5c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4010,7 +4010,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             - When $\kappa = 0$, the distribution becomes uniform on $[0, 2\pi)$.
         """
         mu_val = _vmft_ensure_scalar(mu, "mu")
-        kappa_val = float(np.clip(_vmft_ensure_scalar(kappa, "kappa"), 0.0, _VMFT_KAPPA_UPPER))
+        kappa_val = float(np.minimum(_vmft_ensure_scalar(kappa, "kappa"), _VMFT_KAPPA_UPPER))
         nu_val = _vmft_ensure_scalar(nu, "nu")
         return super().pdf(x, mu_val, kappa_val, nu_val, *args, **kwargs)
 
@@ -6714,7 +6714,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Cumulative probabilities corresponding to `x`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = float(np.minimum(_invbat_ensure_scalar(kappa, "kappa"), _INVBAT_KAPPA_UPPER))
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().cdf(x, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
@@ -6839,7 +6839,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Angles corresponding to the probabilities in `q`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = float(np.minimum(_invbat_ensure_scalar(kappa, "kappa"), _INVBAT_KAPPA_UPPER))
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().ppf(q, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
-- 
2.43.0


From 3c31720be41163a8239683a383153f4eb7fc68db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:00 +0000
Subject: [PATCH 54/84] fix: differential entropy of the von Mises distribution

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 48f1c5c..2604c6f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3743,7 +3743,7 @@ class vonmises_gen(CircularContinuous):
             The entropy of the distribution.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return -np.log(i0(kappa)) + (kappa * i1(kappa)) / i0(kappa)
+        return np.log(2.0 * np.pi * i0(kappa)) - (kappa * i1(kappa)) / i0(kappa)
 
     def _nnlf(self, theta, data):
         """
-- 
2.43.0


From 47fc08e5e20feaf082865b0b6914fcbd11595948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 55/84] fix: vonmises.rvs takes the parameters positionally, so
 that frozen von Mises laws can be sampled

---
 pycircstat2/distributions.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2604c6f..ce0c7cf 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3650,12 +3650,16 @@ class vonmises_gen(CircularContinuous):
             return float(samples[0])
         return samples.reshape(target_shape)
 
-    def rvs(self, size=None, random_state=None, *args, **kwargs):
+    def rvs(self, *args, **kwargs):
         """
         Draw random variates.
 
         Parameters
         ----------
+        mu : float
+            Mean direction.
+        kappa : float
+            Concentration.
         size : int or tuple, optional
             Number of samples to generate.
         random_state : RandomState, optional
@@ -3665,11 +3669,29 @@ class vonmises_gen(CircularContinuous):
         -------
         samples : ndarray
             Random variates.
+
+        Notes
+        -----
+        Positional arguments are ``(mu, kappa, size, random_state)``, or
+        ``(size, random_state)`` when the parameters are given by name.
         """
+        kwargs = self._clean_loc_scale_kwargs(kwargs, caller="rvs")
+
         # Check if instance-level parameters are set
         mu = getattr(self, "mu", None)
         kappa = getattr(self, "kappa", None)
 
+        named = any(p is not None for p in (mu, kappa)) or "mu" in kwargs or "kappa" in kwargs
+        names = ("size", "random_state") if named else ("mu", "kappa", "size", "random_state")
+        if len(args) > len(names):
+            raise TypeError("vonmises.rvs() received too many positional arguments.")
+        for name, value in zip(names, args):
+            if name in kwargs:
+                raise TypeError(f"vonmises.rvs() got multiple values for argument '{name}'")
+            kwargs[name] = value
+        size = kwargs.pop("size", None)
+        random_state = kwargs.pop("random_state", None)
+
         # Override instance parameters if provided in args/kwargs
         mu = kwargs.pop("mu", mu)
         kappa = kwargs.pop("kappa", kappa)
-- 
2.43.0


From db6374b79c9b2125e4164038960fecc23a368546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:20 +0000
Subject: [PATCH 56/84] fix: sample the sine-skewed Jones-Pewsey law at its
 limits lambda = +-1

---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ce0c7cf..ecdb664 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5763,8 +5763,8 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         kappa_val = _jp_ensure_scalar(kappa, "kappa")
         psi_val = _jp_ensure_scalar(psi, "psi")
         lmbd_val = _jp_ensure_scalar(lmbd, "lmbd")
-        if abs(lmbd_val) >= 1.0:
-            raise ValueError("|lmbd| must be < 1 for sine-skewed Jones-Pewsey.")
+        if abs(lmbd_val) > 1.0:
+            raise ValueError("|lmbd| must be <= 1 for sine-skewed Jones-Pewsey.")
 
         if size is None:
             size_tuple = ()
-- 
2.43.0


From 349950a4d65e78255118854f6f5c3b0716c22b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:49 +0000
Subject: [PATCH 57/84] fix: inverse Batschelet sampler terminates for peaked
 kernels with heavy flanks

---
 pycircstat2/distributions.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ecdb664..3d73e06 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6896,9 +6896,19 @@ class inverse_batschelet_gen(CircularContinuous):
             curvature = max(-d2, 1e-3)
 
         kappa_env = float(np.clip(curvature, _INVBAT_ENV_MIN_KAPPA, _INVBAT_KAPPA_UPPER))
-        log_vm_norm = np.log(2.0 * np.pi) + np.log(i0e(kappa_env)) + kappa_env
-        log_ratio = log_pdf + log_vm_norm - kappa_env * np.cos(phi)
-        log_multiplier = float(np.max(log_ratio))
+        # The kernel can be sharply peaked with heavy flanks, so the curvature at the
+        # mode alone may call for an envelope that hardly ever accepts: flatten it
+        # as long as that lowers the rejection constant.
+        candidates = kappa_env * 0.5 ** np.arange(40)
+        log_norms = np.log(2.0 * np.pi) + np.log(i0e(candidates)) + candidates
+        log_multipliers = [
+            float(np.max(log_pdf + log_norm - cand * np.cos(phi)))
+            for cand, log_norm in zip(candidates, log_norms)
+        ]
+        best = int(np.argmin(log_multipliers))
+        kappa_env = float(candidates[best])
+        log_vm_norm = float(log_norms[best])
+        log_multiplier = log_multipliers[best]
         multiplier = float(np.exp(log_multiplier) * 1.02)
 
         params = {
-- 
2.43.0


From 7283dc22a548dcac7344a1544fd69b78bfbf9bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 58/84] fix: von Mises sampler terminates for very small
 concentrations

---
 pycircstat2/distributions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 3d73e06..f2175e2 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3618,9 +3618,13 @@ class vonmises_gen(CircularContinuous):
         if kappa_val <= 1e-9:
             return rng.uniform(0.0, two_pi, size=size)
 
-        a = 1.0 + np.sqrt(1.0 + 4.0 * kappa_val**2)
-        b = (a - np.sqrt(2.0 * a)) / (2.0 * kappa_val)
-        r = (1.0 + b**2) / (2.0 * b)
+        if kappa_val < 1e-5:
+            # a - sqrt(2a) cancels for small kappa: use the expansion of r
+            r = 1.0 / kappa_val + kappa_val
+        else:
+            a = 1.0 + np.sqrt(1.0 + 4.0 * kappa_val**2)
+            b = (a - np.sqrt(2.0 * a)) / (2.0 * kappa_val)
+            r = (1.0 + b**2) / (2.0 * b)
 
         if size is None:
             samples = np.empty(1, dtype=float)
-- 
2.43.0


From e01b34e408c014b0c2a5f5a2926e4e236fe99515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 59/84] fix: flat-topped von Mises sampler terminates for laws
 with heavy shoulders

---
 pycircstat2/distributions.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index f2175e2..762ed8d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4582,14 +4582,20 @@ class vonmises_flattopped_gen(CircularContinuous):
         table = self._get_vmft_table(kappa, nu)
         kappa_env = float(np.clip(kappa * (1.0 + nu) ** 2, _VMFT_ENV_MIN_KAPPA, _VMFT_KAPPA_UPPER))
 
-        log_env_norm = (
-            np.log(2.0 * np.pi)
-            + np.log(i0e(kappa_env))
-            + kappa_env
-        )
-        log_env_pdf = kappa_env * np.cos(table["phi"]) - log_env_norm
-        log_ratio = np.log(table["pdf"]) - log_env_pdf
-        log_multiplier = float(np.max(log_ratio))
+        # The law can have heavy shoulders, so the curvature at the mode alone may
+        # call for an envelope that hardly ever accepts: flatten it as long as that
+        # lowers the rejection constant.
+        log_pdf = np.log(table["pdf"])
+        candidates = kappa_env * 0.5 ** np.arange(40)
+        log_norms = np.log(2.0 * np.pi) + np.log(i0e(candidates)) + candidates
+        log_multipliers = [
+            float(np.max(log_pdf - cand * np.cos(table["phi"]) + log_norm))
+            for cand, log_norm in zip(candidates, log_norms)
+        ]
+        best = int(np.argmin(log_multipliers))
+        kappa_env = float(candidates[best])
+        log_env_norm = float(log_norms[best])
+        log_multiplier = log_multipliers[best]
         multiplier = float(np.exp(log_multiplier) * (1.0 + 5e-12))
 
         params = {
-- 
2.43.0


From daf81e95e9440ecb85d32ce8cb977bde0c69dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 60/84] fix: tables of the flat-topped von Mises and inverse
 Batschelet laws for very concentrated parameters

---
 pycircstat2/distributions.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 762ed8d..72ee9a1 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4656,7 +4656,10 @@ def _vmft_build_table(kappa, nu, grid_size):
 
     cdf_interp = PchipInterpolator(phi, cumulative, extrapolate=True)
 
-    unique_vals, unique_idx = np.unique(cumulative, return_index=True)
+    # knots a denormal distance apart overflow the interpolator's slopes
+    unique_vals, unique_idx = np.unique(
+        np.where(cumulative < 1e-100, 0.0, cumulative), return_index=True
+    )
     if unique_vals.size >= 2:
         inv_interp = PchipInterpolator(unique_vals, phi[unique_idx], extrapolate=True)
     else:
@@ -7325,7 +7328,10 @@ class inverse_batschelet_gen(CircularContinuous):
 
         cdf_interp = PchipInterpolator(phi, cumulative, extrapolate=True)
 
-        unique_vals, unique_idx = np.unique(cumulative, return_index=True)
+        # knots a denormal distance apart overflow the interpolator's slopes
+        unique_vals, unique_idx = np.unique(
+            np.where(cumulative < 1e-100, 0.0, cumulative), return_index=True
+        )
         inv_cdf_interp = (
             PchipInterpolator(unique_vals, phi[unique_idx], extrapolate=True)
             if unique_vals.size >= 2
-- 
2.43.0


From d44d3a9a6f7ede4117d8f8f1687aba07b342938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:55 +0000
Subject: [PATCH 61/84] fix: von Mises law for concentrations where the
 unscaled Bessel functions overflow

---
 pycircstat2/distributions.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 72ee9a1..19677a7 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -10,10 +10,10 @@ from scipy.special import (
     gamma,
     i0,
     i0e,
-    i1,
+    i1e,
     ndtr,
     ndtri,
-    iv,
+    ive,
     betainc,
     betaincinv,
     gammaln,
@@ -3324,7 +3324,7 @@ class vonmises_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, kappa):
-        return np.exp(kappa * np.cos(x - mu)) / (2 * np.pi * i0(kappa))
+        return np.exp(kappa * (np.cos(x - mu) - 1.0)) / (2 * np.pi * i0e(kappa))
 
     def pdf(self, x, mu, kappa, *args, **kwargs):
         r"""
@@ -3351,7 +3351,7 @@ class vonmises_gen(CircularContinuous):
         return super().pdf(x, mu, kappa, *args, **kwargs)
 
     def _logpdf(self, x, mu, kappa):
-        return kappa * np.cos(x - mu) - np.log(2 * np.pi * i0(kappa))
+        return kappa * (np.cos(x - mu) - 1.0) - np.log(2 * np.pi * i0e(kappa))
 
     def logpdf(self, x, mu, kappa, *args, **kwargs):
         """
@@ -3403,7 +3403,7 @@ class vonmises_gen(CircularContinuous):
             result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
-        denom = i0(kappa_val)
+        denom = i0e(kappa_val)
         if not np.isfinite(denom) or denom == 0.0:
             return self._cdf_from_pdf(x, mu, kappa)
 
@@ -3417,7 +3417,7 @@ class vonmises_gen(CircularContinuous):
         converged = False
 
         for n in range(1, max_terms + 1):
-            coeff = iv(n, kappa_val) / (denom * n)
+            coeff = ive(n, kappa_val) / (denom * n)
             if not np.isfinite(coeff):
                 continue
 
@@ -3533,7 +3533,7 @@ class vonmises_gen(CircularContinuous):
         theta_curr = theta.copy()
         for _ in range(max_iter):
             cdf_vals = np.asarray(self.cdf(theta_curr, mu_val, kappa_val), dtype=float)
-            pdf_vals = np.exp(kappa_val * np.cos(theta_curr - mu_val)) / (2.0 * np.pi * i0(kappa_val))
+            pdf_vals = np.exp(kappa_val * (np.cos(theta_curr - mu_val) - 1.0)) / (2.0 * np.pi * i0e(kappa_val))
             delta = cdf_vals - q_clipped
 
             L = np.where(delta <= 0.0, theta_curr, L)
@@ -3743,7 +3743,7 @@ class vonmises_gen(CircularContinuous):
             The circular variance, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return 1 - i1(kappa) / i0(kappa)
+        return 1 - i1e(kappa) / i0e(kappa)
 
     def std(self, *args, **kwargs):
         """
@@ -3755,7 +3755,7 @@ class vonmises_gen(CircularContinuous):
             The circular standard deviation, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        r = i1(kappa) / i0(kappa)
+        r = i1e(kappa) / i0e(kappa)
 
         return np.sqrt(-2 * np.log(r))
 
@@ -3769,7 +3769,7 @@ class vonmises_gen(CircularContinuous):
             The entropy of the distribution.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return np.log(2.0 * np.pi * i0(kappa)) - (kappa * i1(kappa)) / i0(kappa)
+        return np.log(2.0 * np.pi * i0e(kappa)) + kappa * (1.0 - i1e(kappa) / i0e(kappa))
 
     def _nnlf(self, theta, data):
         """
@@ -3860,7 +3860,7 @@ class vonmises_gen(CircularContinuous):
                 return np.inf
             cos_term = np.cos(x - mu_param)
             sum_cos = np.sum(w * cos_term)
-            log_i0_val = np.log(i0(kappa_param))
+            log_i0_val = np.log(i0e(kappa_param)) + kappa_param
             return float(
                 -kappa_param * sum_cos + w_sum * (np.log(2.0 * np.pi) + log_i0_val)
             )
@@ -3871,7 +3871,7 @@ class vonmises_gen(CircularContinuous):
             sin_term = np.sin(x - mu_param)
             sum_sin = np.sum(w * sin_term)
             sum_cos = np.sum(w * cos_term)
-            ratio = i1(kappa_param) / i0(kappa_param)
+            ratio = i1e(kappa_param) / i0e(kappa_param)
             g_mu = kappa_param * sum_sin
             g_kappa = -sum_cos + w_sum * ratio
             return np.array([g_mu, g_kappa], dtype=float)
@@ -7419,7 +7419,7 @@ def _slmbdinv(x, lmbd):
 
 
 def _A1(kappa):
-    return i1(kappa) / i0(kappa)
+    return i1e(kappa) / i0e(kappa)
 
 
 def _c_invbatschelet(kappa, lmbd):
-- 
2.43.0


From 12ad5c7dcbc0138ffcd3402735d7a5b77adccedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:28 +0000
Subject: [PATCH 62/84] fix: Jones-Pewsey normaliser is a number whatever the
 shape of the location that asked first

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 19677a7..6013c8f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5463,7 +5463,7 @@ def _c_jonespewsey(mu, kappa, psi):
         _kernel_jonespewsey,
         a=-np.pi,
         b=np.pi,
-        args=(mu, kappa, psi),
+        args=(0.0, kappa, psi),  # whole turn: the location does not matter
         epsabs=1e-10,
         epsrel=1e-10,
     )[0]
-- 
2.43.0


From f1f753846ec79cd04f39bd64c45b7b502aba9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:46 +0000
Subject: [PATCH 63/84] fix: inverse Batschelet table resolves the cusp of
 lambda near 1

---
 pycircstat2/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 6013c8f..2464f30 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7500,6 +7500,9 @@ def _invbat_ensure_scalar(value, name):
 
 def _invbat_grid_size(kappa, nu, lmbd):
     sharpness = (1.0 + 0.75 * abs(lmbd)) * (1.0 + abs(nu)) * np.sqrt(kappa + 1.0)
+    # the mode turns into a cusp as lmbd approaches 1
+    cusp = max(lmbd, 0.0) / max(1.0 - lmbd, 1e-3)
+    sharpness *= 1.0 + 1.5 * cusp**2
     target = 64.0 + 12.0 * sharpness
     target = float(np.clip(target, _INVBAT_MIN_GRID, _INVBAT_MAX_GRID))
     power = int(np.ceil(np.log2(target)))
-- 
2.43.0


From 2fb200b5215b940f962637a7ce7cf84ff40d8560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:21 +0000
Subject: [PATCH 64/84] fix: a mixture refitted to other data reports its own
 convergence

---
 pycircstat2/clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 1b22cf7..a5c1d79 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -199,6 +199,8 @@ class MovM:
             raise ValueError("Input data must contain at least one observation.")
 
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
+        self.converged = False
+        self.converged_iters = None
         self.data = X
         self.alpha = alpha
         self.n = n = alpha.size
@@ -707,6 +709,8 @@ class MoKJ:
             raise ValueError("Input data must contain at least one observation.")
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
 
+        self.converged = False
+        self.converged_iters = None
         self.data = X
         self.alpha = alpha
         self.n = n = alpha.size
@@ -1131,6 +1135,8 @@ class MoCD:
 
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
 
+        self.converged = False
+        self.converged_iters = None
         self.data = X
         self.alpha = alpha
         self.n = alpha.size
-- 
2.43.0


From d132f5ac64e8081431f7ba262c5f17dccd724610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 65/84] fix: a clustering with a seed gives the same fit
 however often the object has been fitted

---
 pycircstat2/clustering.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index a5c1d79..36e7e84 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -105,6 +105,7 @@ class MovM:
         self.n_iters = n_iters
         self.full_cycle = full_cycle
         self.unit = unit
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         self.converged = False
@@ -199,6 +200,7 @@ class MovM:
             raise ValueError("Input data must contain at least one observation.")
 
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
+        self._rng = np.random.default_rng(self.random_seed)
         self.converged = False
         self.converged_iters = None
         self.data = X
@@ -539,6 +541,7 @@ class MoKJ:
         self.n_iters = n_iters
         self.full_cycle = full_cycle
         self.unit = unit
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         self.mle_maxiter = int(mle_maxiter)
@@ -709,6 +712,7 @@ class MoKJ:
             raise ValueError("Input data must contain at least one observation.")
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
 
+        self._rng = np.random.default_rng(self.random_seed)
         self.converged = False
         self.converged_iters = None
         self.data = X
@@ -962,6 +966,7 @@ class MoCD:
         self.unit = unit
         self.full_cycle = full_cycle
         self.fit_kwargs = {} if fit_kwargs is None else dict(fit_kwargs)
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         fit_signature = inspect.signature(self.distribution.fit)
@@ -1135,6 +1140,7 @@ class MoCD:
 
         alpha = X if self.unit == "radian" else data2rad(X, k=self.full_cycle)
 
+        self._rng = np.random.default_rng(self.random_seed)
         self.converged = False
         self.converged_iters = None
         self.data = X
@@ -1341,6 +1347,7 @@ class CircHAC:
         self.unit = unit
         self.full_cycle = full_cycle
         self.metric = metric
+        self.random_seed = random_seed
         self._rng = np.random.default_rng(random_seed)
 
         self.centers_: Optional[np.ndarray] = None
@@ -1391,6 +1398,7 @@ class CircHAC:
         -------
         self : CircHAC
         """
+        self._rng = np.random.default_rng(self.random_seed)
         self.data = X = np.asarray(X, dtype=float).reshape(-1)
         if X.size == 0:
             raise ValueError("Input data must contain at least one observation.")
-- 
2.43.0


From ebe3706f67e5caadb2aff171181ac7e3beafdcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 66/84] fix: mixture of von Mises survives components without a
 mean direction

---
 pycircstat2/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 36e7e84..35d7ff2 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -167,7 +167,8 @@ class MovM:
         for c in range(n_clusters_init):
             subset = x[labels == c]
             m_c, r_c = circ_mean_and_r(subset)
-            means[c] = m_c
+            # balanced observations have no mean direction
+            means[c] = m_c if np.isfinite(m_c) else subset[0]
             resultants[c] = r_c
             kappa_c = circ_kappa(r=r_c)
             if not np.isfinite(kappa_c):
@@ -233,7 +234,7 @@ class MovM:
                     resultants[c] = 0.0
                 else:
                     mc, rc = circ_mean_and_r(alpha, w=weights)
-                    means_updated[c] = mc
+                    means_updated[c] = mc if np.isfinite(mc) else means[c]
                     resultants[c] = rc
 
             kappas = np.array([max(circ_kappa(r=rc), 1e-3) for rc in resultants])
-- 
2.43.0


From 48eb598d897bc8ed3af653962b2f64eeb5b9f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 67/84] fix: default density grid of a mixture covers one full
 cycle of its unit

---
 pycircstat2/clustering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 35d7ff2..22f9f61 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -8,7 +8,7 @@ from scipy.special import logsumexp
 
 from .descriptive import circ_dist, circ_kappa, circ_mean_and_r
 from .distributions import CircularContinuous, vonmises, katojones
-from .utils import data2rad
+from .utils import data2rad, rad2data
 
 ALLOWED_MOCD_DISTRIBUTIONS = {
     "cardioid",
@@ -391,7 +391,7 @@ class MovM:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -882,7 +882,7 @@ class MoKJ:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = rad2data(x, k=full_cycle)
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -1249,7 +1249,7 @@ class MoCD:
         if X is None:
             X = np.linspace(0.0, 2.0 * np.pi, 200, endpoint=False)
             if unit == "degree":
-                X = np.rad2deg(X)
+                X = rad2data(X, k=full_cycle)
 
         X = np.asarray(X, dtype=float).reshape(-1)
         alpha = X if unit == "radian" else data2rad(X, k=full_cycle)
-- 
2.43.0


From 30a6a14c6a2563f9980f073a04645861f4f7a540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 68/84] fix: EM for Kato-Jones mixtures keeps a component
 rather than make it less likely

---
 pycircstat2/clustering.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 22f9f61..77339f3 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -690,6 +690,11 @@ class MoKJ:
         log_comp = self._component_logpdf(alpha, mu, gamma, rho, lam)
         return log_mix + log_comp
 
+    def _weighted_loglik(self, alpha, w, params) -> float:
+        mu, gamma, rho, lam = params
+        logpdf = katojones.logpdf(alpha, mu=mu, gamma=gamma, rho=rho, lam=lam)
+        return float(np.sum(w * logpdf))
+
     def _nll(self, alpha, p, mu, gamma, rho, lam) -> float:
         log_gamma = self._log_gamma(alpha, p, mu, gamma, rho, lam)
         ll = np.sum(logsumexp(log_gamma, axis=0))
@@ -782,6 +787,13 @@ class MoKJ:
                 if mle_params is None:
                     mle_params = moment_est
 
+                # never trade the current component for a less likely one
+                current = (mu[k], gamma[k], rho[k], lam[k])
+                if self._weighted_loglik(alpha, w, mle_params) < self._weighted_loglik(
+                    alpha, w, current
+                ):
+                    mle_params = current
+
                 mu_new[k], gamma_new[k], rho_new[k], lam_new[k] = mle_params
 
             mu, gamma, rho, lam = mu_new, gamma_new, rho_new, lam_new
-- 
2.43.0


From 650d7997680fa2ae3a65854e81ff109826ca1381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:01 +0000
Subject: [PATCH 69/84] fix: concentration estimate of data without spread is
 large, not zero or negative

---
 pycircstat2/descriptive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 40d4e91..e419182 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1409,11 +1409,11 @@ def circ_kappa(r: float, n: Union[int, None] = None) -> float:
         kappa = -0.4 + 1.39 * r + 0.43 / (1 - r)
     else:
         nom = r**3 - 4 * r**2 + 3 * r
-        if nom != 0:
+        if nom > 0:
             kappa = 1 / nom
         else:
-            # not sure how to handle this...
-            kappa = 1e-16
+            # r = 1 (up to rounding): no spread at all
+            kappa = 1e16
 
     # eq 4.41
     if n is not None:
-- 
2.43.0


From b12edb6fbbb5bacbe3158fbdb4470312538ac2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:21 +0000
Subject: [PATCH 70/84] fix: maximum likelihood fits are not held at the zero
 direction

---
 pycircstat2/distributions.py | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2464f30..d1b0ac4 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1711,7 +1711,7 @@ class cardioid_gen(CircularContinuous):
                 }
             else:
                 init = np.array([mu_mom, rho_mom], dtype=float)
-                bounds = [(0.0, 2.0 * np.pi), (0.0, 0.5)]
+                bounds = [(mu_mom - np.pi, mu_mom + np.pi), (0.0, 0.5)]
                 result = minimize(
                     _nll,
                     init,
@@ -2216,7 +2216,7 @@ class cartwright_gen(CircularContinuous):
             mu_init = mu_mom
             zeta_init = zeta_mom if np.isfinite(zeta_mom) else 10.0
             zeta_init = float(np.clip(zeta_init, 1e-3, 1e4))
-            bounds = [(0.0, 2.0 * np.pi), (1e-6, 1e6)]
+            bounds = [(mu_init - np.pi, mu_init + np.pi), (1e-6, 1e6)]
             result = minimize(
                 nll,
                 np.array([mu_init, zeta_init], dtype=float),
@@ -2791,7 +2791,7 @@ class wrapnorm_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1.0 - 1e-9)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1.0 - 1e-9)]
             init = np.array([mu_mom, rho_mom], dtype=float)
             result = minimize(
                 nll,
@@ -3222,7 +3222,7 @@ class wrapcauchy_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1.0 - 1e-9)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1.0 - 1e-9)]
             init = np.array([mu_mom, max(1e-3, min(rho_mom, 1.0 - 1e-3))], dtype=float)
             result = minimize(
                 nll,
@@ -3886,7 +3886,7 @@ class vonmises_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1e6)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1e6)]
             init = np.array([mu_mom, kappa_mom], dtype=float)
             result = minimize(
                 nll,
@@ -4416,8 +4416,6 @@ class vonmises_flattopped_gen(CircularContinuous):
         def nll(params):
             mu_param, kappa_param, nu_param = params
 
-            if not (0.0 <= mu_param <= 2.0 * np.pi):
-                return np.inf
             if not (kappa_bounds[0] <= kappa_param <= kappa_bounds[1]):
                 return np.inf
             if not (nu_bounds[0] <= nu_param <= nu_bounds[1]):
@@ -4466,7 +4464,7 @@ class vonmises_flattopped_gen(CircularContinuous):
 
         init = np.array([mu_mom, kappa_mom, best_nu], dtype=float)
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (mu_mom - np.pi, mu_mom + np.pi),
             (kappa_bounds[0], kappa_bounds[1]),
             (nu_bounds[0], nu_bounds[1]),
         ]
@@ -5290,7 +5288,7 @@ class jonespewsey_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), kappa_bounds, psi_bounds]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), kappa_bounds, psi_bounds]
             init = np.array([mu_mom, kappa_mom, psi_init], dtype=float)
             result = minimize(
                 nll,
@@ -5916,7 +5914,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
 
         if refine:
             bounds = [
-                (0.0, 2.0 * np.pi),
+                (xi_hat - np.pi, xi_hat + np.pi),
                 kappa_bounds,
                 psi_bounds,
                 lmbd_bounds,
@@ -6440,7 +6438,7 @@ class jonespewsey_asym_gen(CircularContinuous):
 
         init = np.array([xi_init, kappa_init, psi_init, nu_init], dtype=float)
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (xi_init - np.pi, xi_init + np.pi),
             kappa_bounds,
             psi_bounds,
             nu_bounds,
@@ -7163,8 +7161,6 @@ class inverse_batschelet_gen(CircularContinuous):
 
         def nll(params):
             xi_param, kappa_param, nu_param, lmbd_param = params
-            if not (0.0 <= xi_param <= two_pi):
-                return np.inf
             if not (kappa_bounds[0] <= kappa_param <= kappa_bounds[1]):
                 return np.inf
             if not (nu_bounds[0] <= nu_param <= nu_bounds[1]):
@@ -7197,7 +7193,7 @@ class inverse_batschelet_gen(CircularContinuous):
 
         init = np.array([xi_mom, kappa_mom, best_nu, best_lmbd], dtype=float)
         bounds = [
-            (0.0, two_pi),
+            (xi_mom - np.pi, xi_mom + np.pi),
             (kappa_bounds[0], kappa_bounds[1]),
             (nu_bounds[0], nu_bounds[1]),
             (lmbd_bounds[0], lmbd_bounds[1]),
@@ -7907,8 +7903,6 @@ class wrapstable_gen(CircularContinuous):
 
         def nll(params):
             delta_param, alpha_param, beta_param, gamma_param = params
-            if not (0.0 <= delta_param <= 2.0 * np.pi):
-                return np.inf
             if not (alpha_bounds[0] <= alpha_param <= alpha_bounds[1]):
                 return np.inf
             if not (beta_bounds[0] <= beta_param <= beta_bounds[1]):
@@ -7949,7 +7943,7 @@ class wrapstable_gen(CircularContinuous):
                             best_params = cand
 
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (best_params[0] - np.pi, best_params[0] + np.pi),
             tuple(alpha_bounds),
             tuple(beta_bounds),
             tuple(gamma_bounds),
@@ -8798,10 +8792,10 @@ class katojones_gen(CircularContinuous):
             return -np.sum(w * np.log(pdf_vals))
 
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (mu0 - np.pi, mu0 + np.pi),
             (1e-6, 1.0 - 1e-6),
             (0.0, 1.0 - 1e-6),
-            (0.0, 2.0 * np.pi),
+            (phi0 - np.pi, phi0 + np.pi),
         ]
 
         result = minimize(
-- 
2.43.0


From 92762226f6f35ce86fc2353f186d4a7f36e1d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:28 +0000
Subject: [PATCH 71/84] fix: maximum likelihood fit of a cardioid is not
 stranded at rho=0

---
 pycircstat2/distributions.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index d1b0ac4..aabf08d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1710,13 +1710,17 @@ class cardioid_gen(CircularContinuous):
                     "message": "Degenerate start (rho≈0); returning boundary solution.",
                 }
             else:
-                init = np.array([mu_mom, rho_mom], dtype=float)
-                bounds = [(mu_mom - np.pi, mu_mom + np.pi), (0.0, 0.5)]
+                # Away from rho=0.5 and per unit of weight the first step stays short;
+                # a long one would end at rho=0, where every mu is stationary.
+                init = np.array([mu_mom, min(rho_mom, 0.25)], dtype=float)
+                # The log-likelihood is concave in rho*(cos(mu), sin(mu)) and rises
+                # from rho=0 towards mu_mom, so its maximum lies within a quarter turn.
+                bounds = [(mu_mom - 0.5 * np.pi, mu_mom + 0.5 * np.pi), (0.0, 0.5)]
                 result = minimize(
-                    _nll,
+                    lambda params: _nll(params) / w_sum,
                     init,
                     method=optimizer,
-                    jac=_grad,
+                    jac=lambda params: _grad(params) / w_sum,
                     bounds=bounds,
                     **kwargs,
                 )
@@ -1728,11 +1732,11 @@ class cardioid_gen(CircularContinuous):
                 rho_hat = float(np.clip(result.x[1], 0.0, 0.5))
                 info = {
                     "method": "mle",
-                    "loglik": float(-result.fun),
+                    "loglik": float(-_nll((mu_hat, rho_hat))),
                     "n_effective": float(n_eff),
                     "converged": bool(result.success),
                     "nit": result.nit,
-                    "grad_norm": float(np.linalg.norm(result.jac))
+                    "grad_norm": float(w_sum * np.linalg.norm(result.jac))
                     if getattr(result, "jac", None) is not None
                     else np.nan,
                     "optimizer": optimizer,
-- 
2.43.0


From cb4591fce4a67f80b278e96acc18ee272bdeea21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:37 +0000
Subject: [PATCH 72/84] fix: a wrapped normal fit does not depend on the fits
 before it

---
 pycircstat2/distributions.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index aabf08d..960b2a3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2291,7 +2291,6 @@ class wrapnorm_gen(CircularContinuous):
 
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
-        self._series_window_cache = {}
 
     def _argcheck(self, mu, rho):
         try:
@@ -2721,6 +2720,9 @@ class wrapnorm_gen(CircularContinuous):
         mu_mom = float(np.mod(mu_mom, 2.0 * np.pi))
         rho_mom = float(np.clip(rho_mom, 1e-9, 1.0 - 1e-9))
 
+        # Only within one fit: the windows needed depend on its data.
+        cache = {}
+
         def logpdf_series(mu_param, rho_param):
             rho_val = float(np.clip(rho_param, 1e-12, 1.0 - 1e-12))
             if rho_val <= 1e-8:
@@ -2731,11 +2733,6 @@ class wrapnorm_gen(CircularContinuous):
                 return np.full_like(x, -np.log(2.0 * np.pi), dtype=float)
 
             two_pi = 2.0 * np.pi
-            cache = getattr(self, "_series_window_cache", None)
-            if cache is None:
-                cache = {}
-                self._series_window_cache = cache
-
             mu_norm = float(np.mod(mu_param, two_pi))
             mu_bucket = int(round(mu_norm / two_pi * 512)) % 512
             rho_bucket = int(round(min(4095.0, -np.log1p(-rho_val) * 64.0)))
-- 
2.43.0


From 82069b0b8ccc491c77ea46d8ac54fe6cf0674e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 73/84] fix: circular triangular fit refuses an unknown method

---
 pycircstat2/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 960b2a3..b144a70 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1230,6 +1230,9 @@ class triangular_gen(CircularContinuous):
         w_norm = w / w_sum
         n_eff = w_sum**2 / np.sum(w**2)  # Kish effective n
 
+        if method not in {"mle", "moments"}:
+            raise ValueError("`method` must be either 'mle' or 'moments'.")
+
         # Method-of-moments (always available; used as fallback/initial intuition)
         r_bar = float(np.sum(w_norm * np.cos(x)))
         rho_mom = float(np.clip(r_bar, 0.0, 4/np.pi**2))
-- 
2.43.0


From b60374faaa32564fef1dcf74b602b9eec91b4bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 74/84] fix: likelihood reported by a Jones-Pewsey moment fit
 is that of the estimate

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index b144a70..e7702d7 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5287,7 +5287,7 @@ class jonespewsey_gen(CircularContinuous):
             estimates = (self._wrap_direction(mu_mom), kappa_mom, 0.0)
             info = {
                 "method": "moments",
-                "loglik": float(-best_score),
+                "loglik": float(-nll((mu_mom, kappa_mom, 0.0))),
                 "n_effective": float(n_eff),
                 "converged": True,
             }
-- 
2.43.0


From 2be537fc46ac804d872efd27e2978a41940fcce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 75/84] fix: inverse Batschelet moment fit reports its
 likelihood

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index e7702d7..08e9e4a 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7141,7 +7141,7 @@ class inverse_batschelet_gen(CircularContinuous):
                 info = {
                     "method": "moments",
                     "converged": True,
-                    "loglik": float(-np.sum(w) * np.log(2.0 * np.pi)) if kappa_mom <= _INVBAT_KAPPA_TOL else float("nan"),
+                    "loglik": float(np.sum(w * self.logpdf(data_arr, *estimates))),
                     "n_effective": n_eff,
                 }
                 return estimates, info
-- 
2.43.0


From 6f1ddad665f3f7a75c3907e708afe6d7ac957673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 76/84] fix: maximum likelihood fits of the (sine-skewed)
 Jones-Pewsey law are not stranded at psi=0

---
 pycircstat2/distributions.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 08e9e4a..188ce34 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5299,6 +5299,7 @@ class jonespewsey_gen(CircularContinuous):
                 init,
                 method=optimizer,
                 bounds=bounds,
+                **_jp_gradient(optimizer, kwargs),
                 **kwargs,
             )
             if not result.success:
@@ -5332,6 +5333,18 @@ jonespewsey = jonespewsey_gen(name="jonespewsey")
 
 _JP_KAPPA_TOL = 1e-3
 _JP_PSI_TOL = 1e-6
+
+
+def _jp_gradient(optimizer, kwargs):
+    """Gradient option of the likelihood fits.
+
+    Forward differences take steps of 1e-8, on which the density around psi=0 is
+    flat or rounding noise; central differences step over it.
+    """
+    if "jac" in kwargs or str(optimizer).upper() not in {"L-BFGS-B", "TNC", "SLSQP", "TRUST-CONSTR"}:
+        return {}
+    return {"jac": "3-point"}
+
 _JP_MIN_BASE = np.finfo(float).tiny
 _JP_MAX_EXP_ARGUMENT = 350.0  # guard for exp overflow
 
@@ -5944,6 +5957,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                 init,
                 method=optimizer,
                 bounds=bounds,
+                **_jp_gradient(optimizer, kwargs),
                 **kwargs,
             )
             if not result.success:
-- 
2.43.0


From 529e21e3a9e1c3e451625aa8f25c56a06ca09ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:37 +0000
Subject: [PATCH 77/84] fix: Jones-Pewsey kernel does not cancel next to the
 mode when psi is negative

---
 pycircstat2/distributions.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 188ce34..c9e150d 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5345,8 +5345,6 @@ def _jp_gradient(optimizer, kwargs):
         return {}
     return {"jac": "3-point"}
 
-_JP_MIN_BASE = np.finfo(float).tiny
-_JP_MAX_EXP_ARGUMENT = 350.0  # guard for exp overflow
 
 
 def _jp_ensure_scalar(value, name):
@@ -5369,25 +5367,15 @@ def _jp_kernel_base(phi, kappa, psi):
     if abs(psi) < _JP_PSI_TOL:
         return np.exp(kappa * np.cos(phi))
 
+    # cosh(A) + sinh(A) cos(phi) = exp(A) cos^2(phi/2) + exp(-A) sin^2(phi/2), in logs:
+    # the hyperbolic form cancels next to the mode when A is negative.
     A = kappa * psi
-    cos_phi = np.cos(phi)
-
-    cosh_A = np.cosh(A)
-    sinh_A = np.sinh(A)
-    if not np.isfinite(cosh_A) or not np.isfinite(sinh_A):
-        # Fallback to stable exponential representation
-        if A >= 0:
-            exp_A = np.exp(np.clip(A, None, _JP_MAX_EXP_ARGUMENT))
-            exp_negA = np.exp(np.clip(-A, -_JP_MAX_EXP_ARGUMENT, None))
-        else:
-            exp_A = np.exp(np.clip(A, -_JP_MAX_EXP_ARGUMENT, None))
-            exp_negA = np.exp(np.clip(-A, None, _JP_MAX_EXP_ARGUMENT))
-        cosh_A = 0.5 * (exp_A + exp_negA)
-        sinh_A = 0.5 * (exp_A - exp_negA)
-
-    base = cosh_A + sinh_A * cos_phi
-    base = np.clip(base, _JP_MIN_BASE, None)
-    return np.power(base, 1.0 / psi)
+    with np.errstate(divide="ignore"):
+        log_base = np.logaddexp(
+            A + 2.0 * np.log(np.abs(np.cos(0.5 * phi))),
+            -A + 2.0 * np.log(np.abs(np.sin(0.5 * phi))),
+        )
+    return np.exp(log_base / psi)
 
 
 def _jp_effective_kappa(kappa, psi):
-- 
2.43.0


From 0c331dd5ccd6b1ab06f6cf90b658b193ad08e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 78/84] fix: grouped data of 61, 122, 197 ... bins are accepted

---
 pycircstat2/base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index a5342ae..083ebfa 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -199,9 +199,6 @@ class Circular:
                 self.bin_size = bin_size = 0.0
             else:  # grouped data
                 assert len(w) == len(alpha), "`w` and `data` must be the same length."
-                assert len(w) == len(
-                    np.arange(0, 2 * np.pi, 2 * np.pi / len(w))
-                ), "Grouped data should included empty bins."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
                 self.bin_size = bin_size = np.diff(alpha).min()
-- 
2.43.0


From f6d7c7dc75b874cb8d1d90db51080181407e54f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 79/84] fix: bins of a Circular object may be a list of edges

---
 pycircstat2/base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 083ebfa..bc92465 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -207,11 +207,10 @@ class Circular:
 
         # bin data usingse np.histogram
         else:
-            if isinstance(bins, int) or isinstance(bins, np.ndarray):
-                outside = (alpha < 0) | (alpha > 2 * np.pi)
-                w, alpha = np.histogram(
-                    np.where(outside, angmod(alpha), alpha), bins=bins, range=(0, 2 * np.pi)
-                )  # np.histogram return bin edges
+            outside = (alpha < 0) | (alpha > 2 * np.pi)
+            w, alpha = np.histogram(
+                np.where(outside, angmod(alpha), alpha), bins=bins, range=(0, 2 * np.pi)
+            )  # np.histogram return bin edges
             self.w = w = np.asarray(w)
             self.alpha_lb = alpha[:-1]  # bin lower bound
             self.alpha_ub = alpha[1:]  # bin upper bound
-- 
2.43.0


From 5d00c0d9665bfa0fdd7bcf8eed7f9d85478fda31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 80/84] fix: binning a Circular object counts the frequencies
 of its data

---
 pycircstat2/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index bc92465..29ad5d5 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -208,8 +208,14 @@ class Circular:
         # bin data usingse np.histogram
         else:
             outside = (alpha < 0) | (alpha > 2 * np.pi)
+            if w is not None:
+                assert len(w) == len(alpha), "`w` and `data` must be the same length."
+                w = np.asarray(w)
             w, alpha = np.histogram(
-                np.where(outside, angmod(alpha), alpha), bins=bins, range=(0, 2 * np.pi)
+                np.where(outside, angmod(alpha), alpha),
+                bins=bins,
+                range=(0, 2 * np.pi),
+                weights=w,
             )  # np.histogram return bin edges
             self.w = w = np.asarray(w)
             self.alpha_lb = alpha[:-1]  # bin lower bound
-- 
2.43.0


From c37dbc628a8d8934825ddf2c687aca867313674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 81/84] fix: bin width of grouped data does not depend on where
 the bins start or their order

---
 pycircstat2/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 29ad5d5..af03591 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -201,7 +201,11 @@ class Circular:
                 assert len(w) == len(alpha), "`w` and `data` must be the same length."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
-                self.bin_size = bin_size = np.diff(alpha).min()
+                # widths around the circle, of bins in any order
+                start = np.sort(angmod(alpha))
+                width = np.diff(start, append=start[0] + 2 * np.pi)
+                width = width[width > 1e-9]
+                self.bin_size = bin_size = width.min() if len(width) > 1 else 0.0
                 self.alpha_lb = alpha - bin_size / 2
                 self.alpha_ub = alpha + bin_size / 2
 
-- 
2.43.0


From a74a34b166f52de79e5abe3413788c676a38a0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 82/84] fix: axial data are doubled on the full cycle they are
 given with

---
 pycircstat2/base.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index af03591..6471d2c 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -501,15 +501,15 @@ class Axial(Circular):
     ):
         
         data = np.array(data) if isinstance(data, list) else data
-        # doubling original data and reducing them modulo 360 degrees
-        if unit == "degree":
-            data_double = 2 * data % 360
-        elif unit == "radian":
-            data_double = 2 * data % (2 * np.pi)
-        elif unit == "hour":
-            data_double = 2 * data % 24
-        else:
-            data_double = 2 * data % full_cycle
+        # doubling original data and reducing them modulo the full cycle
+        cycle = full_cycle
+        if cycle is None:
+            cycle = {"degree": 360, "radian": 2 * np.pi, "hour": 24}.get(unit)
+            if cycle is None:
+                raise ValueError(
+                    "You need to provide a value for `full_cycle` if it is not `degree` or `hour`."
+                )
+        data_double = 2 * data % cycle
 
         super().__init__(
             data=data_double,
-- 
2.43.0


From 5424e8893b7f70858f70e463f0ac074ac0e5b870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:52 +0000
Subject: [PATCH 83/84] fix: median of axial data is halved back like their
 mean

---
 pycircstat2/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 6471d2c..063a6f7 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -528,3 +528,7 @@ class Axial(Circular):
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
+        self.median = self.median / 2
+        if hasattr(self, "median_lb"):
+            self.median_lb /= 2
+            self.median_ub /= 2
-- 
2.43.0


From ba48e9f0315734e5ec4267ab116def7235fa1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 84/84] =?UTF-8?q?fix:=20metadata=20of=20Zar's=20D2=20names?=
 =?UTF-8?q?=20the=20column=20=CE=B8=5Fupper=20as=20the=20data=20do?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 pycircstat2/data/zar/D2.csv-metadata.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/data/zar/D2.csv-metadata.json b/pycircstat2/data/zar/D2.csv-metadata.json
index 17db8bb..f2945a7 100644
--- a/pycircstat2/data/zar/D2.csv-metadata.json
+++ b/pycircstat2/data/zar/D2.csv-metadata.json
@@ -12,7 +12,7 @@
             "type": "vectors",
             "unit": "degree"
         },
-        "θ_uppwer": {
+        "θ_upper": {
             "name": "upper bound of θ",
             "type": "vectors",
             "unit": "degree"
-- 
2.43.0

