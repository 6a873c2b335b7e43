From 1cdee63cce986bb5172a2a8caef0304e2337bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 01/37] fix: look up sampling probabilities in the bins that
 were counted

---
 src/rascal/calibrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0673c22..d78ee20 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -519,7 +519,8 @@ class Calibrator:
             # weight the probability of choosing the sample by the inverse
             # line density
             h = np.histogram(peaks, bins=10)
-            prob = 1.0 / h[0][np.digitize(peaks, h[1], right=True) - 1]
+            bin_idx = np.clip(np.digitize(peaks, h[1]) - 1, 0, len(h[0]) - 1)
+            prob = 1.0 / h[0][bin_idx]
             prob = prob / np.sum(prob)
 
         for sample in sampler_list:
-- 
2.43.0


From 5986832796e8d28c5f0ef6a15d6d03a5edbae6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 02/37] fix: index brute force samples as one-dimensional
 arrays

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index d78ee20..056c8a2 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -531,8 +531,8 @@ class Calibrator:
                 stop_n_candidateow = False
 
                 if brute_force:
-                    x_hat = x[[sample]]
-                    y_hat = y[[sample]]
+                    x_hat = x[list(sample)]
+                    y_hat = y[list(sample)]
 
                 else:
                     # Pick some random peaks
-- 
2.43.0


From 2a3b5afb069001a1f74008559237c9fd20fe1df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 03/37] fix: bound the number of times a rejected sample is
 redrawn

---
 src/rascal/calibrator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 056c8a2..314042e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -523,11 +523,14 @@ class Calibrator:
             prob = 1.0 / h[0][bin_idx]
             prob = prob / np.sum(prob)
 
+        # A rejected random sample is drawn again, but not forever. There is
+        # nothing to draw again in a brute force search.
+        max_draws = 1 if brute_force else 1000
+
         for sample in sampler_list:
-            keep_trying = True
             self.logger.debug(sample)
 
-            while keep_trying:
+            for _ in range(max_draws):
                 stop_n_candidateow = False
 
                 if brute_force:
@@ -733,7 +736,7 @@ class Calibrator:
                         break
 
                 # If we got this far, then we can continue to the next sample
-                keep_trying = False
+                break
 
         # Overfit check
         if best_inliers <= self.fit_deg + 1:
-- 
2.43.0


From 4c45f796469b09f0a40e95b4c5be7d679597ecda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 04/37] fix: do not overwrite the user's ransac properties
 while fitting

---
 src/rascal/calibrator.py | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 314042e..0801698 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -387,6 +387,8 @@ class Calibrator:
         candidate_tolerance,
         brute_force,
         progress,
+        sample_size=None,
+        minimum_matches=None,
     ):
         """
         Use RANSAC to sample the parameter space and give best guess
@@ -408,6 +410,10 @@ class Calibrator:
             Solve all pixel-wavelength combinations with set to True.
         progress: boolean
             Show the progress bar with tdqm if set to True.
+        sample_size: None or int
+            Number of peaks in each sample, default to the sample_size set.
+        minimum_matches: None or int
+            Minimum number of matches, default to the minimum_matches set.
 
         Returns
         -------
@@ -423,6 +429,12 @@ class Calibrator:
 
         """
 
+        if sample_size is None:
+            sample_size = self.sample_size
+
+        if minimum_matches is None:
+            minimum_matches = self.minimum_matches
+
         if self.linear:
             self._get_candidate_points_linear(candidate_tolerance)
 
@@ -471,10 +483,10 @@ class Calibrator:
         # Brute force check all combinations. If the request sample_size is
         # the same or larger than the available lines, it is essentially a
         # brute force.
-        if brute_force or (self.sample_size >= len(np.unique(x))):
+        if brute_force or (sample_size >= len(np.unique(x))):
             idx = range(len(x))
-            sampler = itertools.combinations(idx, self.sample_size)
-            self.sample_size = len(np.unique(x))
+            sampler = itertools.combinations(idx, sample_size)
+            sample_size = len(np.unique(x))
 
         else:
             sampler = range(int(max_tries))
@@ -540,7 +552,7 @@ class Calibrator:
                 else:
                     # Pick some random peaks
                     x_hat = np.random.choice(
-                        peaks, self.sample_size, replace=False, p=prob
+                        peaks, sample_size, replace=False, p=prob
                     )
                     y_hat = []
 
@@ -685,10 +697,10 @@ class Calibrator:
                     # Check that we have enough inliers based on user specified
                     # constraints
 
-                    if n_inliers < self.minimum_matches:
+                    if n_inliers < minimum_matches:
                         self.logger.debug(
                             "Not enough matched peaks for valid solution, "
-                            "user specified {}.".format(self.minimum_matches)
+                            "user specified {}.".format(minimum_matches)
                         )
                         continue
 
@@ -1640,36 +1652,40 @@ class Calibrator:
             )
 
         # Reduce sample_size if it is larger than the number of atlas available
-        if self.sample_size > len(self.atlas):
+        # The properties set by the user are left as they are.
+        sample_size = self.sample_size
+        minimum_matches = self.minimum_matches
+
+        if sample_size > len(self.atlas):
             self.logger.warning(
                 "Size of sample_size is larger than the size of atlas, "
                 + "the sample_size is set to match the size of atlas = "
                 + str(len(self.atlas))
                 + "."
             )
-            self.sample_size = len(self.atlas)
+            sample_size = len(self.atlas)
 
-        if self.sample_size <= fit_deg:
-            self.sample_size = fit_deg + 1
+        if sample_size <= fit_deg:
+            sample_size = fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
 
-        if self.minimum_matches > len(self.atlas):
+        if minimum_matches > len(self.atlas):
             self.logger.warning(
                 "Requested minimum matches is greater than the atlas size"
                 "setting the minimum number of matches to equal the atlas"
                 "size = " + str(len(self.atlas)) + "."
             )
-            self.minimum_matches = len(self.atlas)
+            minimum_matches = len(self.atlas)
 
-        if self.minimum_matches > len(self.peaks):
+        if minimum_matches > len(self.peaks):
             self.logger.warning(
                 "Requested minimum matches is greater than the number of "
                 "peaks detected, which has a size of "
                 "size = " + str(len(self.peaks)) + "."
             )
-            self.minimum_matches = len(self.peaks)
+            minimum_matches = len(self.peaks)
 
         # TODO also check whether minimum peak utilisation is greater than
         # minimum matches.
@@ -1687,6 +1703,8 @@ class Calibrator:
             candidate_tolerance=candidate_tolerance,
             brute_force=self.brute_force,
             progress=self.progress,
+            sample_size=sample_size,
+            minimum_matches=minimum_matches,
         )
 
         peak_utilisation = n_inliers / len(self.peaks)
-- 
2.43.0


From 3b44299546266610e8afe02c2bb20c7d280b3d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 05/37] fix: remove every atlas line in the range

---
 src/rascal/atlas.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index a352e8d..6e9942f 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -324,9 +324,11 @@ class Atlas:
 
         """
 
-        for atlas_line in self.atlas_lines:
-            if abs(atlas_line.wavelength - wavelength) < tolerance:
-                self.atlas_lines.remove(atlas_line)
+        self.atlas_lines[:] = [
+            atlas_line
+            for atlas_line in self.atlas_lines
+            if not abs(atlas_line.wavelength - wavelength) < tolerance
+        ]
 
     def list(self):
         """
-- 
2.43.0


From 22d6ad431f1c5fb76dd24e3dc64c2a34adbef385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 06/37] fix: fit the lines that are in the atlas at the time of
 fitting

---
 src/rascal/calibrator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 0801698..a9c8f0f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1651,6 +1651,9 @@ class Calibrator:
                 "fit_type must be: (1) poly, (2) legendre or (3) chebyshev"
             )
 
+        # The atlas may have been modified since the pairs were generated.
+        self._generate_pairs()
+
         # Reduce sample_size if it is larger than the number of atlas available
         # The properties set by the user are left as they are.
         sample_size = self.sample_size
-- 
2.43.0


From 977ec78606381c16d7470462bd1c55fff183202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 07/37] fix: keep the previous solution when a fit or a
 refinement fails

---
 src/rascal/calibrator.py | 45 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index a9c8f0f..7e86777 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1,4 +1,5 @@
 import copy
+import functools
 import itertools
 import logging
 
@@ -17,6 +18,45 @@ from .houghtransform import HoughTransform
 from .atlas import Atlas
 
 
+def _keep_solution_on_failure(method):
+    """
+    Restore the solution a Calibrator holds if the method does not complete.
+
+    """
+
+    properties = (
+        "fit_deg",
+        "fit_type",
+        "polyfit",
+        "polyval",
+        "fit_coeff",
+        "matched_peaks",
+        "matched_atlas",
+        "rms",
+        "residual",
+        "residuals",
+        "peak_utilisation",
+        "atlas_utilisation",
+    )
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        solution = {p: vars(self)[p] for p in properties if p in vars(self)}
+
+        try:
+            return method(self, *args, **kwargs)
+
+        except BaseException:
+            for p in properties:
+                vars(self).pop(p, None)
+
+            vars(self).update(solution)
+
+            raise
+
+    return wrapper
+
+
 class Calibrator:
     def __init__(self, peaks, spectrum=None):
         """
@@ -459,6 +499,8 @@ class Calibrator:
         best_mask = [False]
         best_residual = None
         best_inliers = 0
+        self.matched_peaks = []
+        self.matched_atlas = []
 
         # Note that there may be multiple matches for
         # each peak, that is len(x) > len(np.unique(x))
@@ -1565,6 +1607,7 @@ class Calibrator:
         self.pix_known = pix
         self.wave_known = wave
 
+    @_keep_solution_on_failure
     def fit(
         self,
         max_tries=500,
@@ -1739,6 +1782,7 @@ class Calibrator:
             self.atlas_utilisation,
         )
 
+    @_keep_solution_on_failure
     def match_peaks(
         self,
         fit_coeff=None,
@@ -2050,6 +2094,7 @@ class Calibrator:
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
 
+    @_keep_solution_on_failure
     def manual_refit(
         self, matched_peaks=None, matched_atlas=None, degree=None, x0=None
     ):
-- 
2.43.0


From 5ec79b09e767229985ad76dac45b160af02d3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 08/37] fix: evaluate Legendre and Chebyshev solutions as what
 they are

---
 src/rascal/calibrator.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7e86777..8af415e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -18,6 +18,28 @@ from .houghtransform import HoughTransform
 from .atlas import Atlas
 
 
+def _legendre_polyfit(x, y, deg):
+    """
+    Legendre fit, with the coefficients returned as those of a power series.
+
+    """
+
+    return np.polynomial.legendre.leg2poly(
+        np.polynomial.legendre.legfit(x, y, deg)
+    )
+
+
+def _chebyshev_polyfit(x, y, deg):
+    """
+    Chebyshev fit, with the coefficients returned as those of a power series.
+
+    """
+
+    return np.polynomial.chebyshev.cheb2poly(
+        np.polynomial.chebyshev.chebfit(x, y, deg)
+    )
+
+
 def _keep_solution_on_failure(method):
     """
     Restore the solution a Calibrator holds if the method does not complete.
@@ -1677,17 +1699,18 @@ class Calibrator:
         self.brute_force = brute_force
         self.progress = progress
 
+        # The solution is always given as the coefficients of a power series,
+        # which is what the robust fit returns.
+        self.polyval = np.polynomial.polynomial.polyval
+
         if self.fit_type == "poly":
             self.polyfit = np.polynomial.polynomial.polyfit
-            self.polyval = np.polynomial.polynomial.polyval
 
         elif self.fit_type == "legendre":
-            self.polyfit = np.polynomial.legendre.legfit
-            self.polyval = np.polynomial.legendre.legval
+            self.polyfit = _legendre_polyfit
 
         elif self.fit_type == "chebyshev":
-            self.polyfit = np.polynomial.chebyshev.chebfit
-            self.polyval = np.polynomial.chebyshev.chebval
+            self.polyfit = _chebyshev_polyfit
 
         else:
             raise ValueError(
-- 
2.43.0


From a7453f9d9290f7f4da32e21cc92fa7768bdc00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 09/37] fix: rank the unique candidate wavelengths that were
 counted

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 8af415e..46b1f06 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -273,7 +273,7 @@ class Calibrator:
 
                 out_peaks.extend([peak] * n)
                 out_wavelengths.extend(
-                    wavelengths_matched[np.argsort(-aggregated_count)[:n]]
+                    unique_wavelengths[np.argsort(-aggregated_count)[:n]]
                 )
 
         return out_peaks, out_wavelengths
-- 
2.43.0


From c63429a448d3c326f1c6c08d534e216df222ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 10/37] fix: look up the Hough density at (gradient, intercept)

---
 src/rascal/calibrator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 46b1f06..5359372 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -699,8 +699,11 @@ class Calibrator:
 
                 # modified cost function weighted by the Hough space density
                 if (self.hough_weight is not None) & (twoditp is not None):
+                    # The first axis of the histogram is the gradient. A
+                    # density is not negative, but the spline can overshoot.
+                    density = twoditp(gradient, intercept, grid=False)
                     weight = self.hough_weight * np.sum(
-                        twoditp(intercept, gradient, grid=False)
+                        np.maximum(density, 0.0)
                     )
 
                 else:
-- 
2.43.0


From b84444585d97fac73b6dd86959b92327506d94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 11/37] fix: load a Hough transform completely or not at all

---
 src/rascal/houghtransform.py | 97 +++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 29 deletions(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 41a2699..b12d84b 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -186,28 +186,50 @@ class HoughTransform:
             bins=(xbins, ybins),
         )
 
-        # Get the line fit_coeffients from the promising bins in the
-        # histogram
-        self.hist_sorted_arg = np.dstack(
-            np.unravel_index(
-                np.argsort(self.hist.ravel())[::-1], self.hist.shape
-            )
+        self.hist_sorted_arg, self.hough_lines = self._rank_bins(
+            self.hist, self.xedges, self.yedges
+        )
+
+    def _rank_bins(self, hist, xedges, yedges):
+        """
+        Get the line fit_coeffients from the promising bins in the histogram.
+
+        Parameters
+        ----------
+        hist: 2D numpy array
+            The number of Hough points in each bin.
+        xedges: 1D numpy array
+            The bin edges in the gradient direction.
+        yedges: 1D numpy array
+            The bin edges in the intercept direction.
+
+        Returns
+        -------
+        hist_sorted_arg: 2D numpy array
+            The indices of the bins, the most populated first.
+        lines: list of tuples
+            The (gradient, intercept) at the centres of these bins.
+
+        """
+
+        hist_sorted_arg = np.dstack(
+            np.unravel_index(np.argsort(hist.ravel())[::-1], hist.shape)
         )[0]
 
-        xbin_width = (self.xedges[1] - self.xedges[0]) / 2
-        ybin_width = (self.yedges[1] - self.yedges[0]) / 2
+        xbin_width = (xedges[1] - xedges[0]) / 2
+        ybin_width = (yedges[1] - yedges[0]) / 2
 
         lines = []
 
-        for b in self.hist_sorted_arg:
+        for b in hist_sorted_arg:
             lines.append(
                 (
-                    self.xedges[b[0]] + xbin_width,
-                    self.yedges[b[1]] + ybin_width,
+                    xedges[b[0]] + xbin_width,
+                    yedges[b[1]] + ybin_width,
                 )
             )
 
-        self.hough_lines = lines
+        return hist_sorted_arg, lines
 
     def save(
         self,
@@ -309,31 +331,48 @@ class HoughTransform:
 
             input_npy = np.load(filename, allow_pickle=True)
 
-            self.hough_points = input_npy[0]
-            self.hist = input_npy[1].astype("float")
-            self.xedges = input_npy[2].astype("float")
-            self.yedges = input_npy[3].astype("float")
-            self.min_slope = float(input_npy[4][0])
-            self.max_slope = float(input_npy[5][0])
-            self.min_intercept = float(input_npy[6][0])
-            self.max_intercept = float(input_npy[7][0])
+            hough_points = input_npy[0]
+            hist = input_npy[1].astype("float")
+            xedges = input_npy[2].astype("float")
+            yedges = input_npy[3].astype("float")
+            min_slope = float(input_npy[4][0])
+            max_slope = float(input_npy[5][0])
+            min_intercept = float(input_npy[6][0])
+            max_intercept = float(input_npy[7][0])
 
         elif filetype == "json":
             if filename[-5:] != ".json":
                 filename += ".json"
 
-            input_json = json.load(open(filename))
+            with open(filename) as f:
+                input_json = json.load(f)
 
-            self.hough_points = input_json["hough_points"]
-            self.hist = np.array(input_json["hist"]).astype("float")
-            self.xedges = np.array(input_json["xedges"]).astype("float")
-            self.yedges = np.array(input_json["yedges"]).astype("float")
-            self.min_slope = float(input_json["min_slope"])
-            self.max_slope = float(input_json["max_slope"])
-            self.min_intercept = float(input_json["min_intercept"])
-            self.max_intercept = float(input_json["max_intercept"])
+            hough_points = np.array(
+                input_json["hough_points"], dtype="float"
+            ).reshape(-1, 2)
+            hist = np.array(input_json["hist"]).astype("float")
+            xedges = np.array(input_json["xedges"]).astype("float")
+            yedges = np.array(input_json["yedges"]).astype("float")
+            min_slope = float(input_json["min_slope"])
+            max_slope = float(input_json["max_slope"])
+            min_intercept = float(input_json["min_intercept"])
+            max_intercept = float(input_json["max_intercept"])
 
         else:
             raise ValueError(
                 "Unknown filetype %s, it has to be npy or json" % filetype
             )
+
+        hist_sorted_arg, hough_lines = self._rank_bins(hist, xedges, yedges)
+
+        # Everything was read, only now replace what this object holds.
+        self.hough_points = hough_points
+        self.hist = hist
+        self.xedges = xedges
+        self.yedges = yedges
+        self.min_slope = min_slope
+        self.max_slope = max_slope
+        self.min_intercept = min_intercept
+        self.max_intercept = max_intercept
+        self.hist_sorted_arg = hist_sorted_arg
+        self.hough_lines = hough_lines
-- 
2.43.0


From 6afc9413e565b0e28d0556b957abd881eadebd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 12/37] fix: never leave a partly written Hough transform
 behind

---
 src/rascal/houghtransform.py | 39 ++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index b12d84b..3152f79 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -1,5 +1,33 @@
-import numpy as np
+import io
 import json
+import os
+import threading
+
+import numpy as np
+
+
+def _write_file(filename, content):
+    """
+    Write a file such that it is either complete or left as it was.
+
+    """
+
+    filename = os.path.realpath(filename)
+    temporary = "{}.{}-{}.tmp".format(
+        filename, os.getpid(), threading.get_ident()
+    )
+
+    try:
+        with open(temporary, "wb") as f:
+            f.write(content)
+
+        os.replace(temporary, filename)
+
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+
+        raise
 
 
 class HoughTransform:
@@ -275,7 +303,9 @@ class HoughTransform:
             output_npy.append([self.max_intercept])
 
             if to_disk:
-                np.save(filename + ".npy", output_npy)
+                with io.BytesIO() as f:
+                    np.save(f, output_npy)
+                    _write_file(filename + ".npy", f.getvalue())
 
         if "json" in fileformat_split:
             output_json = {}
@@ -290,8 +320,9 @@ class HoughTransform:
             output_json["max_intercept"] = self.max_intercept
 
             if to_disk:
-                with open(filename + ".json", "w+") as f:
-                    json.dump(output_json, f)
+                _write_file(
+                    filename + ".json", json.dumps(output_json).encode()
+                )
 
         if not to_disk:
             if ("npy" in fileformat_split) and (
-- 
2.43.0


From 1fecaeefa4217250a1f541bb7173389be596c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:36 +0000
Subject: [PATCH 13/37] fix: use the Hough transform that was loaded or
 returned in memory

---
 src/rascal/calibrator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 5359372..464014e 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1563,7 +1563,7 @@ class Calibrator:
 
         """
 
-        self.ht.save(
+        return self.ht.save(
             filename=filename,
             fileformat=fileformat,
             delimiter=delimiter,
@@ -1586,6 +1586,8 @@ class Calibrator:
         """
 
         self.ht.load(filename=filename, filetype=filetype)
+        self.hough_points = self.ht.hough_points
+        self.hough_lines = self.ht.hough_lines
 
     def set_known_pairs(self, pix=(), wave=()):
         """
-- 
2.43.0


From 702bb5ee8b3ec4f1d00a3ddebf66d8acc346f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:29 +0000
Subject: [PATCH 14/37] fix: refuse to extend a Hough transform that does not
 exist

---
 src/rascal/houghtransform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rascal/houghtransform.py b/src/rascal/houghtransform.py
index 3152f79..1dce758 100644
--- a/src/rascal/houghtransform.py
+++ b/src/rascal/houghtransform.py
@@ -190,6 +190,9 @@ class HoughTransform:
         else:
             raise TypeError("Unsupported type for extending hough points.")
 
+        if (self.hough_points is None) or (points is None):
+            raise ValueError("There are no hough points to be extended.")
+
         self.hough_points = np.vstack((self.hough_points, points))
 
     def bin_hough_points(self, xbins, ybins):
-- 
2.43.0


From 36e913ee1ede2d56f18056359c504970e8c559f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 15/37] fix: keep the pairs together when an edit of them is
 interrupted

---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 464014e..96ceac9 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -2079,6 +2079,7 @@ class Calibrator:
 
         return pw_pairs
 
+    @_keep_solution_on_failure
     def add_pix_wave_pair(self, pix, wave):
         """
         Adding extra pixel-wavelength pair to the Calibrator for refitting.
@@ -2103,6 +2104,7 @@ class Calibrator:
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
 
+    @_keep_solution_on_failure
     def remove_pix_wave_pair(self, arg):
         """
         Remove fitted pixel-wavelength pair from the Calibrator for refitting.
-- 
2.43.0


From 53cf51c6faabce75ae31556e1b7c59195f574faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 16/37] fix: add a pair at its place in the order of the pixels

---
 src/rascal/calibrator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 96ceac9..e2f9835 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -2095,7 +2095,7 @@ class Calibrator:
 
         """
 
-        arg = np.argwhere(pix > self.matched_peaks)[0]
+        arg = np.searchsorted(self.matched_peaks, pix)
 
         # Only update the lists if both can be inserted
         matched_peaks = np.insert(self.matched_peaks, arg, pix)
-- 
2.43.0


From 7654f60f56d2b22e2a22170633536d44cdbf653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 17/37] fix: accept a list as the initial coefficients of a
 robust fit

---
 src/rascal/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index 68aff03..c99fe3b 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -95,7 +95,7 @@ def robust_polyfit(x, y, degree=3, x0=None):
 
     x_n, y_n = normalise_input(x, y)
 
-    p_init = copy.copy(x0)
+    p_init = None if x0 is None else np.array(x0, dtype=float)
     # Need to normalise the fit function too
     if p_init is not None:
         for i in range(0, degree):
-- 
2.43.0


From 84240240859b1c5b2964c332804354c53a5e65c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:03 +0000
Subject: [PATCH 18/37] fix: start a robust fit from the given coefficients, in
 their order

---
 src/rascal/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rascal/models.py b/src/rascal/models.py
index c99fe3b..451b271 100644
--- a/src/rascal/models.py
+++ b/src/rascal/models.py
@@ -98,10 +98,11 @@ def robust_polyfit(x, y, degree=3, x0=None):
     p_init = None if x0 is None else np.array(x0, dtype=float)
     # Need to normalise the fit function too
     if p_init is not None:
-        for i in range(0, degree):
+        for i in range(0, degree + 1):
             p_init[i] *= x.std() ** i
 
-        p_init /= y.std()
+        # highest order first
+        p_init = p_init[::-1] / y.std()
     else:
         p_init = np.ones(degree + 1)
 
-- 
2.43.0


From 0bde732002740d0ddd35031b5e0e7da681aae0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 19/37] fix: add all lines to an atlas, or none

---
 src/rascal/atlas.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index 6e9942f..f647a5b 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -176,6 +176,9 @@ class Atlas:
         if isinstance(elements, str):
             elements = [elements]
 
+        # Only add the lines once all of them are available
+        new_lines = []
+
         if elements is not None:
             for element in elements:
                 (
@@ -199,10 +202,12 @@ class Atlas:
                 for element, line, intensity in list(
                     zip(atlas_elements_tmp, atlas_tmp, atlas_intensities_tmp)
                 ):
-                    self.atlas_lines.append(
+                    new_lines.append(
                         AtlasLine(line, element, intensity, "NIST")
                     )
 
+        self.atlas_lines.extend(new_lines)
+
     def add_user_atlas(
         self,
         elements,
@@ -271,13 +276,19 @@ class Atlas:
                 wavelengths, temperature, pressure, relative_humidity
             )
 
-        self.min_atlas_wavelength = min(wavelengths)
-        self.max_atlas_wavelength = max(wavelengths)
+        # Only add the lines once all of them are available
+        new_lines = [
+            AtlasLine(line, element, intensity)
+            for element, line, intensity in zip(
+                elements, wavelengths, intensities
+            )
+        ]
 
-        for element, line, intensity in list(
-            zip(elements, wavelengths, intensities)
-        ):
-            self.atlas_lines.append(AtlasLine(line, element, intensity))
+        self.min_atlas_wavelength, self.max_atlas_wavelength = (
+            min(wavelengths),
+            max(wavelengths),
+        )
+        self.atlas_lines.extend(new_lines)
 
     def get_lines(self):
         """
-- 
2.43.0


From 58f9760aa724ff239891e1c76b479c78f041f02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 20/37] fix: accept a single user line as documented

---
 src/rascal/atlas.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rascal/atlas.py b/src/rascal/atlas.py
index f647a5b..7f7c6c3 100644
--- a/src/rascal/atlas.py
+++ b/src/rascal/atlas.py
@@ -251,18 +251,26 @@ class Atlas:
 
         """
 
-        if not isinstance(elements, list):
+        if isinstance(elements, str):
+            elements = [elements]
+
+        elif not isinstance(elements, list):
             elements = list(elements)
 
-        if not isinstance(wavelengths, list):
+        if np.isscalar(wavelengths):
+            wavelengths = [wavelengths]
+
+        elif not isinstance(wavelengths, list):
             wavelengths = list(wavelengths)
 
         if intensities is None:
             intensities = [0] * len(wavelengths)
 
-        else:
-            if not isinstance(intensities, list):
-                intensities = list(intensities)
+        elif np.isscalar(intensities):
+            intensities = [intensities]
+
+        elif not isinstance(intensities, list):
+            intensities = list(intensities)
 
         assert len(elements) == len(wavelengths), ValueError(
             "Input elements and wavelengths have different length."
-- 
2.43.0


From 39b91c829e8a65089ef3854dfbac0665380857c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:24 +0000
Subject: [PATCH 21/37] fix: do not modify the spectrum when plotting it in log
 space

---
 src/rascal/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/plotting.py b/src/rascal/plotting.py
index 96695d0..e5fafd4 100644
--- a/src/rascal/plotting.py
+++ b/src/rascal/plotting.py
@@ -742,6 +742,8 @@ def plot_fit(
 
     if spectrum is not None:
         if log_spectrum:
+            # work on a copy
+            spectrum = np.array(spectrum, dtype="float")
             spectrum[spectrum < 0] = 1e-100
             spectrum = np.log10(spectrum)
             vline_max = np.nanmax(spectrum) * 2.0
-- 
2.43.0


From 491a35ef3fba624aa52635c22a4a3e02f67ce229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 22/37] fix: refine_peaks normalises a copy of each window, of
 any number type

---
 src/rascal/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index ac340b0..e59e6d1 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -485,7 +485,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
                 int(peak) + window_width, length
             )
         ]
-        y /= np.nanmax(y)
+        # The windows of close peaks overlap: do not normalise in place.
+        y = y / np.nanmax(y)
         x = np.arange(len(y))
 
         mask = np.isfinite(y) & ~np.isnan(y)
-- 
2.43.0


From 7c5e11eea3646270b3aac1dec0ce7aa2052a08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 23/37] fix: a peak with too few usable pixels is dropped alone
 by refine_peaks

---
 src/rascal/util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index e59e6d1..85be19c 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -480,11 +480,13 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
     length = len(spectrum)
 
     for peak in peaks:
-        y = spectrum[
-            max(0, int(peak) - window_width) : min(
-                int(peak) + window_width, length
-            )
-        ]
+        start = max(0, int(peak) - window_width)
+        end = max(0, min(int(peak) + window_width, length))
+        y = spectrum[start:end]
+
+        if len(y) == 0:
+            continue
+
         # The windows of close peaks overlap: do not normalise in place.
         y = y / np.nanmax(y)
         x = np.arange(len(y))
@@ -492,7 +494,8 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         mask = np.isfinite(y) & ~np.isnan(y)
         n = np.sum(mask)
 
-        if n == 0:
+        # A Gaussian has three parameters
+        if n < 3:
             continue
 
         mean = np.sum(x * y) / n
-- 
2.43.0


From 330ddb282c864530b839247eca82bb7bcefb66c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:20 +0000
Subject: [PATCH 24/37] fix: refined positions count from the start of the
 window that was fitted

---
 src/rascal/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 85be19c..81167ea 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -511,7 +511,7 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
             if centre > len(spectrum) or centre < 0:
                 continue
 
-            refined_peaks.append(peak - window_width + centre)
+            refined_peaks.append(start + centre)
 
         except RuntimeError:
             continue
-- 
2.43.0


From ebe7c27b79193a18114f1ea938ce44e2c59df447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 25/37] fix: start the Gaussian fit of a peak from its usable
 pixels only

---
 src/rascal/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 81167ea..9f2f87c 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -498,11 +498,14 @@ def refine_peaks(spectrum, peaks, window_width=10, distance=None):
         if n < 3:
             continue
 
+        x = x[mask]
+        y = y[mask]
+
         mean = np.sum(x * y) / n
         sigma = np.sum(y * (x - mean) ** 2) / n
 
         try:
-            popt, _ = curve_fit(gauss, x[mask], y[mask], p0=[1, mean, sigma])
+            popt, _ = curve_fit(gauss, x, y, p0=[1, mean, sigma])
             height, centre, _ = popt
 
             if height < 0:
-- 
2.43.0


From 80717e42a4f5b6ab16d824b7fa8a1888aa1ae34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:52 +0000
Subject: [PATCH 26/37] fix: keep copies of the pixel list and the known pairs
 of the caller

---
 src/rascal/calibrator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index e2f9835..982dbd4 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1014,7 +1014,7 @@ class Calibrator:
 
         # set the pixel_list
         if pixel_list is not None:
-            self.pixel_list = np.asarray(pixel_list)
+            self.pixel_list = np.array(pixel_list)
 
         elif self.pixel_list is None:
             self.pixel_list = np.arange(self.num_pix)
@@ -1613,8 +1613,8 @@ class Calibrator:
 
         """
 
-        pix = np.asarray(pix, dtype="float").reshape(-1)
-        wave = np.asarray(wave, dtype="float").reshape(-1)
+        pix = np.array(pix, dtype="float").reshape(-1)
+        wave = np.array(wave, dtype="float").reshape(-1)
 
         assert pix.size == wave.size, ValueError(
             "Please check the length of the input arrays. pix has size {} "
-- 
2.43.0


From 29e50eea4b66fc918454465b9d897d5ac726a2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 27/37] fix: do not truncate a pixel added to integer peak
 positions

---
 src/rascal/calibrator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 982dbd4..b84b1a3 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -2097,9 +2097,14 @@ class Calibrator:
 
         arg = np.searchsorted(self.matched_peaks, pix)
 
-        # Only update the lists if both can be inserted
-        matched_peaks = np.insert(self.matched_peaks, arg, pix)
-        matched_atlas = np.insert(self.matched_atlas, arg, wave)
+        # Only update the lists if both can be inserted. The peaks found may be
+        # integers, the ones added are not to be truncated.
+        matched_peaks = np.insert(
+            np.asarray(self.matched_peaks, dtype=float), arg, pix
+        )
+        matched_atlas = np.insert(
+            np.asarray(self.matched_atlas, dtype=float), arg, wave
+        )
 
         self.matched_peaks = matched_peaks
         self.matched_atlas = matched_atlas
-- 
2.43.0


From 0acab50596eb4d33f053ea6e41b88867c57451d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 28/37] fix: known pixels and wavelengths are replaced together

---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index b84b1a3..144f9f8 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1631,8 +1631,8 @@ class Calibrator:
         ):
             raise ValueError("All wave elements have to be numeric.")
 
-        self.pix_known = pix
-        self.wave_known = wave
+        # Never the pixels of one set with the wavelengths of another
+        self.pix_known, self.wave_known = pix, wave
 
     @_keep_solution_on_failure
     def fit(
-- 
2.43.0


From 0c37ad5548945e1830fe2a19d3cc4c3588d95733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 29/37] fix: leave the properties as they were when new ones
 are refused

---
 src/rascal/calibrator.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 144f9f8..5061f24 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -79,6 +79,29 @@ def _keep_solution_on_failure(method):
     return wrapper
 
 
+def _keep_properties_on_failure(method):
+    """
+    Restore all the properties of a Calibrator if the method that sets some of
+    them does not complete.
+
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        properties = dict(vars(self))
+
+        try:
+            return method(self, *args, **kwargs)
+
+        except BaseException:
+            vars(self).clear()
+            vars(self).update(properties)
+
+            raise
+
+    return wrapper
+
+
 class Calibrator:
     def __init__(self, peaks, spectrum=None):
         """
@@ -939,6 +962,7 @@ class Calibrator:
         self.plot_with_plotly = True
         self.plot_with_matplotlib = False
 
+    @_keep_properties_on_failure
     def set_calibrator_properties(
         self,
         num_pix=None,
@@ -1064,6 +1088,7 @@ class Calibrator:
                 "use_plotly() to manually select the library."
             )
 
+    @_keep_properties_on_failure
     def set_hough_properties(
         self,
         num_slopes=None,
@@ -1201,6 +1226,7 @@ class Calibrator:
         if self.atlas is not None:
             self._generate_pairs()
 
+    @_keep_properties_on_failure
     def set_ransac_properties(
         self,
         sample_size=None,
@@ -1365,6 +1391,7 @@ class Calibrator:
         else:
             pass
 
+    @_keep_properties_on_failure
     def add_atlas(
         self,
         elements,
@@ -1444,6 +1471,7 @@ class Calibrator:
 
         self.atlas.clear()
 
+    @_keep_properties_on_failure
     def add_user_atlas(
         self,
         elements,
@@ -1479,6 +1507,7 @@ class Calibrator:
 
         self._generate_pairs()
 
+    @_keep_properties_on_failure
     def set_atlas(self, atlas, candidate_tolerance=10.0, constrain_poly=False):
         """
         Adds an atlas of arc lines to the calibrator
-- 
2.43.0


From f7b708870d192324382fd000fa47e7c07ff440ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 30/37] fix: search the gradients of the pixel list that was
 set last

---
 src/rascal/calibrator.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 5061f24..7dec5cc 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1055,6 +1055,10 @@ class Calibrator:
             fill_value="extrapolate",
         )
 
+        # the limits of the gradients depend on the pixel_list
+        if self.min_wavelength is not None:
+            self._set_hough_limits()
+
         if seed is not None:
             np.random.seed(seed)
 
@@ -1193,6 +1197,15 @@ class Calibrator:
         else:
             pass
 
+        self._set_hough_limits()
+
+    def _set_hough_limits(self):
+        """
+        Work out the range of the gradients and intercepts to be searched from
+        the hough_properties and the pixel_list.
+
+        """
+
         # Start wavelength in the spectrum, +/- some tolerance
         self.min_intercept = self.min_wavelength - self.range_tolerance
         self.max_intercept = self.min_wavelength + self.range_tolerance
-- 
2.43.0


From 76f85b4521b767d3454c412ba4a09ac610a14fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 31/37] fix: transform the lines that are in the atlas at the
 time

---
 src/rascal/calibrator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7dec5cc..e3f02b1 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1548,6 +1548,10 @@ class Calibrator:
         self._generate_pairs()
 
     def do_hough_transform(self, brute_force=False):
+        # The atlas may have been modified since the pairs were generated.
+        if self.atlas is not None:
+            self._generate_pairs()
+
         if self.pairs == []:
             logging.warning("pairs list is empty. Try generating now.")
             self._generate_pairs()
-- 
2.43.0


From bb349cda310ccda4efc671bbd4822775bcdd8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 32/37] fix: remember the plotting library that was chosen last

---
 src/rascal/calibrator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index e3f02b1..59f393c 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -950,6 +950,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "matplotlib"
         self.plot_with_matplotlib = True
         self.plot_with_plotly = False
 
@@ -959,6 +960,7 @@ class Calibrator:
 
         """
 
+        self.plotting_library = "plotly"
         self.plot_with_plotly = True
         self.plot_with_matplotlib = False
 
-- 
2.43.0


From f4c483b05d699a7412ea2573c26b37bd69390504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 33/37] fix: a synthetic spectrum uses the model last set

set_model() left the coefficients of the constructor in place, which
get_pixels() uses for constant and linear models, and the model kept using
the list of the caller.
---
 src/rascal/synthetic.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/rascal/synthetic.py b/src/rascal/synthetic.py
index 64c159d..c8cd84a 100644
--- a/src/rascal/synthetic.py
+++ b/src/rascal/synthetic.py
@@ -1,3 +1,5 @@
+import copy
+
 import pynverse
 import numpy as np
 from . import models
@@ -23,10 +25,10 @@ class SyntheticSpectrum:
         self.set_wavelength_limit(min_wavelength, max_wavelength)
 
         if coefficients is not None:
-            self.coefficients = coefficients
-            self.set_model(self.coefficients)
+            self.set_model(coefficients)
 
         else:
+            self.coefficients = None
             self.model = None
             self.degree = None
 
@@ -36,8 +38,11 @@ class SyntheticSpectrum:
         """
 
         if isinstance(coefficients, (list, np.ndarray)):
+            self.coefficients = copy.deepcopy(coefficients)
             self.degree = len(coefficients) - 1
-            self.model = models.polynomial(a=coefficients, degree=self.degree)
+            self.model = models.polynomial(
+                a=self.coefficients, degree=self.degree
+            )
 
         else:
             raise TypeError("Please provide a list or an numpy array.")
-- 
2.43.0


From 92fbf40f45b3c95d28292d56637f4da8b475eae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 34/37] fix: sample enough peaks for the degree of the given
 fit_coeff

fit() takes the degree from fit_coeff, but the sample was enlarged for the
fit_deg argument only, so that the trial polynomials were underdetermined.
---
 src/rascal/calibrator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 59f393c..7730606 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -1787,8 +1787,9 @@ class Calibrator:
             )
             sample_size = len(self.atlas)
 
-        if sample_size <= fit_deg:
-            sample_size = fit_deg + 1
+        # The degree is that of fit_coeff if that is given
+        if sample_size <= self.fit_deg:
+            sample_size = self.fit_deg + 1
 
         if (self.hough_lines is None) or (self.hough_points is None):
             self.do_hough_transform()
-- 
2.43.0


From 0fa0dae565d8b6ac40d602572a4d574884f7d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 35/37] fix: a starting solution does not limit the solutions
 that are found

The error of the fit_coeff given to fit() was compared with the cost of the
hypotheses, which is divided by their Hough space density: without a Hough
weight no measured data could be fitted any more.
---
 src/rascal/calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 7730606..20eae6f 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -607,10 +607,10 @@ class Calibrator:
         else:
             twoditp = None
 
-        # Calculate initial error given pre-existing fit
+        # Calculate initial error given pre-existing fit. It is not returned if
+        # nothing better is found, so it does not limit the cost.
         if fit_coeff is not None:
             err, _, _ = self._match_bijective(candidates, peaks, fit_coeff)
-            best_cost = sum(err)
             best_err = np.sqrt(np.mean(err**2.0))
 
         # The histogram is fixed, so pre-computed outside the loop
-- 
2.43.0


From 204b053ee8a9779a3431f5fd021339d7f79db8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 36/37] fix: keep a line without neighbours, and accept
 elements without lines

filter_separation() raised IndexError on an empty list, so that adding an
element without lines in the range (with the default minimum distance) failed
for all elements, and it dropped a line that has no neighbours at all.
---
 src/rascal/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rascal/util.py b/src/rascal/util.py
index 9f2f87c..39e8587 100644
--- a/src/rascal/util.py
+++ b/src/rascal/util.py
@@ -215,6 +215,10 @@ def filter_separation(wavelengths, min_separation=0):
 
     """
 
+    # A line without neighbours is not close to any other line
+    if len(wavelengths) < 2:
+        return np.ones(len(wavelengths), dtype=bool)
+
     left_dists = np.zeros_like(wavelengths)
     left_dists[1:] = wavelengths[1:] - wavelengths[:-1]
 
-- 
2.43.0


From f1ed6a530ea6559fb8a21332b7e60a5d98938d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:19 +0000
Subject: [PATCH 37/37] fix: add lines through a calibrator completely or not
 at all

---
 src/rascal/calibrator.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/rascal/calibrator.py b/src/rascal/calibrator.py
index 20eae6f..6362c5b 100644
--- a/src/rascal/calibrator.py
+++ b/src/rascal/calibrator.py
@@ -102,6 +102,32 @@ def _keep_properties_on_failure(method):
     return wrapper
 
 
+def _keep_atlas_on_failure(method):
+    """
+    Restore the lines of the atlas of a Calibrator if the method that adds
+    some to it does not complete, so that it can be called again.
+
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        atlas = self.atlas
+        properties = {} if atlas is None else dict(vars(atlas))
+        lines = [] if atlas is None else list(atlas.atlas_lines)
+
+        try:
+            return method(self, *args, **kwargs)
+
+        except BaseException:
+            if atlas is not None:
+                vars(atlas).update(properties)
+                atlas.atlas_lines[:] = lines
+
+            raise
+
+    return wrapper
+
+
 class Calibrator:
     def __init__(self, peaks, spectrum=None):
         """
@@ -1407,6 +1433,7 @@ class Calibrator:
             pass
 
     @_keep_properties_on_failure
+    @_keep_atlas_on_failure
     def add_atlas(
         self,
         elements,
@@ -1487,6 +1514,7 @@ class Calibrator:
         self.atlas.clear()
 
     @_keep_properties_on_failure
+    @_keep_atlas_on_failure
     def add_user_atlas(
         self,
         elements,
-- 
2.43.0

