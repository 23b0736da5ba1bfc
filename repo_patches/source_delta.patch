From 025b38bb493f58c511e2a8c2ca52a0c958a6fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 01/53] fix: UnivariateMCD reweighting keeps the coinciding
 observations when the raw variance is zero

---
 robpy/univariate/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/univariate/mcd.py b/robpy/univariate/mcd.py
index 11a439b..f948663 100644
--- a/robpy/univariate/mcd.py
+++ b/robpy/univariate/mcd.py
@@ -63,8 +63,8 @@ class UnivariateMCD(RobustScale):
         return raw_var, raw_loc
 
     def _reweighting(self, X: np.ndarray):
-        distances = (X - self.raw_location_) ** 2 / self.raw_variance_
-        mask = distances < chi2.ppf(0.975, df=1)
+        # no division by the raw variance: it is zero if at least h observations coincide
+        mask = (X - self.raw_location_) ** 2 <= chi2.ppf(0.975, df=1) * self.raw_variance_
         loc = np.mean(X[mask])
         var = np.var(X[mask])
         if self.consistency_correction:
-- 
2.43.0


From 6d4ca7c520be9f89f898e1a73e611b07d48e0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 02/53] fix: inverse_submatrix respects the order of the
 indices when all of them are selected

---
 robpy/utils/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/utils/general.py b/robpy/utils/general.py
index eb8cd84..26b1686 100644
--- a/robpy/utils/general.py
+++ b/robpy/utils/general.py
@@ -26,6 +26,6 @@ def inverse_submatrix(A: np.ndarray, A_inv: np.ndarray, indices: np.array) -> np
     elif n_submatrix < p and n_submatrix <= p / 2.0:  # don't use the trick
         result = np.linalg.inv(A[np.ix_(indices, indices)])
     else:  # submatrix is the original matrix
-        result = A_inv
+        result = A_inv[np.ix_(indices, indices)]
 
     return result
-- 
2.43.0


From 14c9fc7ec7bec5808888e34e673b066579806803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:28 +0000
Subject: [PATCH 03/53] fix: FastMCD scales an integer h to the size of a
 partition

---
 robpy/covariance/mcd.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index cbc70be..d2ba09d 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -102,6 +102,7 @@ class FastMCD(RobustCovariance):
             self.location_ = X.mean(0)
             return np.cov(X, rowvar=False)
         self.rng = np.random.default_rng(self.random_seed)
+        self._n_total = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
         partitions = self._partition_data(X)
         self.logger.info(f"Partitioned data into {len(partitions)} partitions")
@@ -195,25 +196,29 @@ class FastMCD(RobustCovariance):
 
     def _get_h(self, X: np.ndarray) -> int:
         n, p = X.shape
-        if self.alpha is None:
+        alpha = self.alpha
+        if isinstance(alpha, int) and n < self._n_total:
+            # an integer h refers to the complete data: a partition uses the same proportion
+            alpha = alpha / self._n_total
+        if alpha is None:
             return int((n + p + 1) / 2)
-        elif isinstance(self.alpha, int) and (n / 2 <= self.alpha <= n):
-            if self.alpha < int((n + p + 1) / 2):
+        elif isinstance(alpha, int) and (n / 2 <= alpha <= n):
+            if alpha < int((n + p + 1) / 2):
                 warnings.warn(
                     f"h is too small and therefore set to [(n+p+1)/2] ({int((n + p + 1) / 2)}).",
                     category=UserWarning,
                     stacklevel=2,
                 )
-            return np.max([self.alpha, int((n + p + 1) / 2)])
-        elif (isinstance(self.alpha, float) and (0.5 <= self.alpha <= 1)) or self.alpha == 1:
-            if int(self.alpha * n) < int((n + p + 1) / 2):
+            return np.max([alpha, int((n + p + 1) / 2)])
+        elif (isinstance(alpha, float) and (0.5 <= alpha <= 1)) or alpha == 1:
+            if int(alpha * n) < int((n + p + 1) / 2):
                 warnings.warn(
                     f"h = alpha*n is too small and therefore set to [(n+p+1)/2]"
                     f" ({int((n + p + 1) / 2)}).",
                     category=UserWarning,
                     stacklevel=2,
                 )
-            return np.max([int(self.alpha * n), int((n + p + 1) / 2)])
+            return np.max([int(alpha * n), int((n + p + 1) / 2)])
         else:
             raise ValueError(
                 f"alpha must be an integer between n/2 and n or"
-- 
2.43.0


From adb81e4557dbeaf54a8e41ff35d00330b93a7a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 04/53] fix: MCD C-steps run until the determinant stops
 decreasing

---
 robpy/covariance/mcd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index d2ba09d..b1650bc 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -130,7 +130,7 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
@@ -345,7 +345,7 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (new_subset.determinant - subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant) < self.tolerance
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From 2c8b2cfc95a08b9f67c91e835407305baf69fda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:16 +0000
Subject: [PATCH 05/53] fix: non-robust distances of the covariance estimators
 use the classical mean

---
 robpy/covariance/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index f5b24ea..3abadbf 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -84,7 +84,7 @@ class RobustCovariance(EmpiricalCovariance):
             X, location=self.location_, covariance=self.covariance_
         )
         self._mahalanobis_distances = mahalanobis_distance(
-            X, location=self.location_, covariance=self.default_covariance_
+            X, location=X.mean(0), covariance=self.default_covariance_
         )
 
         return self
-- 
2.43.0


From d31915c23cf332c66857eda1a25ea281024b1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 06/53] fix: MMRegression weights the intercept of its weighted
 least squares step

---
 robpy/regression/mm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index fc2a958..61a034a 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -52,9 +52,7 @@ class MMRegression(RobustRegression):
             residuals = y - self.model.predict(X)
             scaled_residuals = residuals / self._scale
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
-            self.model = LinearRegression().fit(
-                np.sqrt(weights).reshape(-1, 1) * X, np.sqrt(weights) * y
-            )
+            self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
-- 
2.43.0


From 45ba6d823f3bf87b6d6df2f83de4b47a2725f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:55 +0000
Subject: [PATCH 07/53] fix: MMRegression gives an observation with zero
 residual weight one instead of NaN

---
 robpy/regression/mm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 61a034a..5f833bb 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -50,7 +50,9 @@ class MMRegression(RobustRegression):
         self.n_iter = 0
         for i in range(self.max_iterations):
             residuals = y - self.model.predict(X)
-            scaled_residuals = residuals / self._scale
+            # avoid divide by 0 errors
+            scaled_residuals = np.where(residuals == 0, np.finfo(np.float64).eps, residuals)
+            scaled_residuals = scaled_residuals / self._scale
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X)
-- 
2.43.0


From ddfa7a61c6099f08deef0d39dae12043dd956eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:01 +0000
Subject: [PATCH 08/53] fix: SRegression default b lies within the range of its
 rho function

---
 robpy/regression/s.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index f06d0b5..184f4fe 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -17,7 +17,7 @@ class SRegression(RobustRegression):
         n_initial_i_steps: int = 2,
         n_best_subsets: int = 5,
         max_scale_iterations: int = 2,
-        b: float = 0.5,
+        b: float = 0.1995,
         fit_intercept: bool = True,
         relative_tolerance: float = 1e-7,
         scale_tolerance: float = 1e-10,
@@ -45,7 +45,8 @@ class SRegression(RobustRegression):
                 Number of iterative steps to derive M-scale estimates (`r` in the original paper).
                 Defaults to 2.
             b (float, optional):
-                constant on the RHS of the M scale equation. Defaults to 0.5.
+                constant on the RHS of the M scale equation. Defaults to 0.1995, half of the maximum
+                of the default rho, which makes the scale consistent for normal errors.
             fit_intercept (bool, optional):
                 Whether an intercept should be included in the linear regression. Defaults to True.
             relative_tolerance (float, optional):
-- 
2.43.0


From 19dfb180ca7cbe125c37b9ba7d94179fa44b597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:08 +0000
Subject: [PATCH 09/53] fix: SRegression adds the intercept column also when a
 feature is constant

---
 robpy/regression/s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index 184f4fe..e9166c5 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -86,7 +86,7 @@ class SRegression(RobustRegression):
 
         X, y = _convert_input_to_array(X, y)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         models, scales = self._get_initial_models(X, y)
         self.logger.info(f"Fitted {len(models)} initial models.")
         best_idx = np.argsort(scales)[: self.n_best_subsets]
@@ -131,7 +131,7 @@ class SRegression(RobustRegression):
             raise NotFittedError
         X, _ = _convert_input_to_array(X)
         if self.fit_intercept:
-            X = add_constant(X)
+            X = add_constant(X, has_constant="add")
         return self.model.predict(X)
 
     def _get_scale(self, s0: float, residuals: np.ndarray):
-- 
2.43.0


From 68746979f5a8e072e4116b72a42d32119676165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 10/53] fix: FastLTSRegression reweights with its robust scale
 instead of the standard deviation of all residuals

---
 robpy/regression/lts.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index fcb2ce7..4ea5df6 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -137,7 +137,9 @@ class FastLTSRegression(RobustRegression):
         )
         if self.reweighting:
             residuals = y.reshape(-1, 1) - self.predict(X)
-            mask = (np.abs(residuals / np.std(residuals)) <= norm.ppf(0.9875)).flatten()
+            # absolute value: the small sample factor is negative if n <= 2p
+            robust_scale = get_consistency_factor(n=X.shape[0], h=h) * np.abs(self._scale)
+            mask = (np.abs(residuals) <= norm.ppf(0.9875) * robust_scale).flatten()
             self.model = LinearRegression().fit(X[mask, :], y[mask])
             new_subset = np.arange(X.shape[0])[mask]
             best_loss = self._get_loss_value(X, y, new_subset, self.model)
@@ -316,6 +318,20 @@ class FastLTSRegression(RobustRegression):
         return h_subset_idx, lr_model
 
 
+def get_consistency_factor(n: int, h: int) -> float:
+    """
+    Calculate the factor which makes the root mean square of the h smallest absolute residuals out
+    of n consistent for the standard deviation of normal errors.
+
+    References:
+     - https://github.com/cran/robustbase/blob/c4b9d21cfc4beb64653bb2ffba9e549e2dbb98ed/R/ltsReg.R
+    """
+    if h >= n:
+        return 1.0
+    q = norm.ppf((h + n) / (2 * n))
+    return 1 / np.sqrt(1 - 2 * n / h * q * norm.pdf(q))
+
+
 def get_correction_factor(p: int, n: int, alpha: float) -> float:
     """
     Calculate the small sample correction factor for the scale resulting from LTS regression when
-- 
2.43.0


From 5d48e6f7cc891e647d7ed4cb8b55f92311ed545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 11/53] fix: l1median terminates when an iterate coincides with
 an observation

---
 robpy/utils/median.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index cfdef98..36946c6 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -11,14 +11,24 @@ def l1median(X: np.ndarray) -> float:
     References:
         - Fritz, H., Filzmoser, P., & Croux, C. (2012). A comparison of algorithms for the
           multivariate L1-median. Computational Statistics, 27, 393-410.
+        - Vardi, Y., & Zhang, C. H. (2000). The multivariate L1-median and associated data depth.
+          Proceedings of the National Academy of Sciences, 97(4), 1423-1426.
     """
     epsilon = 1e-7
     mu_0 = np.mean(X, axis=0)
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        W = 1 / d
-        mu_1 = np.sum((X * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        away = d > 0
+        if not np.any(away):
+            return mu_0
+        W = 1 / d[away]
+        mu_1 = np.sum((X[away] * W[:, np.newaxis]).T / np.sum(W), axis=1)
+        if not np.all(away):
+            # observations that coincide with the current iterate hold it back (Vardi & Zhang, 2000)
+            pull = np.linalg.norm(np.sum(centered_X[away] * W[:, np.newaxis], axis=0))
+            hold = np.sum(~away)
+            mu_1 = mu_0 if hold >= pull else mu_1 + (mu_0 - mu_1) * hold / pull
         if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
             return mu_1
         else:
-- 
2.43.0


From a4926561e84b9f35f84ec705facb2a3273e4dcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:46 +0000
Subject: [PATCH 12/53] fix: l1median tolerance is relative to the scale of the
 data

---
 robpy/utils/median.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index 36946c6..d597bed 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -29,7 +29,9 @@ def l1median(X: np.ndarray) -> float:
             pull = np.linalg.norm(np.sum(centered_X[away] * W[:, np.newaxis], axis=0))
             hold = np.sum(~away)
             mu_1 = mu_0 if hold >= pull else mu_1 + (mu_0 - mu_1) * hold / pull
-        if np.sum(np.abs(mu_0 - mu_1)) < epsilon:
+        # relative to the scale of the data, and not below the rounding error
+        tolerance = epsilon * np.median(d) + 4 * np.finfo(float).eps * np.sum(np.abs(mu_0))
+        if np.sum(np.abs(mu_0 - mu_1)) <= tolerance:
             return mu_1
         else:
             mu_0 = mu_1
-- 
2.43.0


From ead08eaf4dd46003bddaf6796e906342dbd1b6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 13/53] fix: stahel_donoho with a random seed draws different
 directions

---
 robpy/utils/outlyingness.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index 977c90b..cfacb87 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -33,9 +33,10 @@ def stahel_donoho(
           kovarianzmatrizen (Doctoral dissertation, ETH Zurich).
     """
     # step 1: get random directions
+    rng = np.random.default_rng(random_seed)
     D = np.hstack(
         [
-            _get_random_direction(X, n_points=n_points, random_seed=random_seed).reshape(-1, 1)
+            _get_random_direction(X, n_points=n_points, random_seed=rng).reshape(-1, 1)
             for _ in range(n_dir)
         ]
     )  # (n_features, n_dir)
@@ -54,14 +55,15 @@ def stahel_donoho(
 def _get_random_direction(
     X: np.ndarray,
     n_points: int = 2,
-    random_seed: int | None = None,
+    random_seed: int | np.random.Generator | None = None,
 ) -> np.ndarray:
     """Get direction orthogonal to the hyperplane spanned by random points in X.
 
     Args:
         X (np.ndarray): data matrix (n x p).
         n_points (int, optional): number of points to determine the hyperplane. Defaults to 2.
-        random_seed (int | None, optional): can be used to provide a random seed. Defaults to None.
+        random_seed (int | Generator | None, optional): can be used to provide a random seed or
+            generator. Defaults to None.
 
     Returns:
         np.ndarray: vector of shape (p, ) indicating the direction.
-- 
2.43.0


From 8a30c88d3ccabe39fe2dd89ab7f52035c2cb7612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 14/53] fix: stahel_donoho handles identical observations and
 projections without spread

---
 robpy/utils/outlyingness.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/robpy/utils/outlyingness.py b/robpy/utils/outlyingness.py
index cfacb87..ec92b59 100644
--- a/robpy/utils/outlyingness.py
+++ b/robpy/utils/outlyingness.py
@@ -45,11 +45,11 @@ def stahel_donoho(
 
     # step 3: outlyingness
     # to do: let scale and loc estimators be passed as arguments
-    return np.max(
-        np.abs(projections - np.median(projections, axis=0))
-        / median_abs_deviation(projections, axis=0),
-        axis=1,
-    )
+    deviations = np.abs(projections - np.median(projections, axis=0))
+    scales = median_abs_deviation(projections, axis=0)
+    with np.errstate(divide="ignore", invalid="ignore"):
+        # an observation in the center of a projection is not outlying, even without any spread
+        return np.max(np.where(deviations == 0, 0, deviations / scales), axis=1)
 
 
 def _get_random_direction(
@@ -80,4 +80,5 @@ def _get_random_direction(
         # U of SVD gives orthogonal basis, last vector is perpendicular to hyperplane
         d = np.linalg.svd(vectors)[-1][-1]
 
-    return d / np.linalg.norm(d)
+    norm = np.linalg.norm(d)
+    return d / norm if norm > 0 else d
-- 
2.43.0


From 8402b728307f01ada5e67c55155a80ef91c0af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:08 +0000
Subject: [PATCH 15/53] fix: PCALocantore handles an observation that coincides
 with the spatial median

---
 robpy/pca/spca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/spca.py b/robpy/pca/spca.py
index 11cc106..514e11a 100644
--- a/robpy/pca/spca.py
+++ b/robpy/pca/spca.py
@@ -37,7 +37,7 @@ class PCALocantore(RobustPCA):
         self.location_ = l1median(X)
         centered_X = X - self.location_
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
-        w = 1 / d
+        w = 1 / np.where(d == 0, 1, d)
         spatial_sign_covariance = (
             np.dot((centered_X * w[:, np.newaxis]).T, (centered_X * w[:, np.newaxis])) / n
         )
-- 
2.43.0


From 73742b388385eb992aa2cd5a0eeb8d8231f84995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 16/53] fix: ROBPCA passes its random seed to the final MCD
 step

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index a94a407..862807f 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -105,7 +105,7 @@ class ROBPCA(RobustPCA):
         self.components_ = eigvecs_v[:, sorted_eig_v_idx[:k]]
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
-            mcd = FastMCD().fit(self.transform(X))
+            mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
-- 
2.43.0


From eacd6d57615d851498fe75211b2125e6f528f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 17/53] fix: ROBPCA centers at its robust location instead of
 the mean of all observations

---
 robpy/pca/robpca.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 862807f..e2e4604 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -55,7 +55,6 @@ class ROBPCA(RobustPCA):
         # step 1: singular value decomposition = applying standard PCA
         pca = PCA()
         X = pca.fit_transform(X)
-        self.location_ = np.mean(X, axis=0)
         loadings = pca.components_.T
         # step 2: stahel donoho outlyingness --> h subset
         outlyingness = stahel_donoho(X, random_seed=self.random_seed)
@@ -83,6 +82,7 @@ class ROBPCA(RobustPCA):
 
         h_index = np.argsort(outlyingness)[:h]
         h_cov = np.cov(X[h_index], rowvar=False)
+        self.location_ = np.mean(X[h_index], axis=0)
         # step 3: project on k-dimensional subspace
         eigvals_h, eigvecs_h = np.linalg.eigh(h_cov)
         sorted_eig_h_idx = np.argsort(eigvals_h)[::-1]
@@ -99,6 +99,7 @@ class ROBPCA(RobustPCA):
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
         v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
         cov_v = np.cov(X[v_index], rowvar=False)
+        self.location_ = np.mean(X[v_index], axis=0)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
         k = min(k, np.linalg.matrix_rank(cov_v, hermitian=True))
         sorted_eig_v_idx = np.argsort(eigvals_v)[::-1]
@@ -106,12 +107,12 @@ class ROBPCA(RobustPCA):
         if self.final_MCD_step and k > 1:
             # step 5: final MCD step
             mcd = FastMCD(random_seed=self.random_seed).fit(self.transform(X))
+            self.location_ = self.location_ + self.components_ @ mcd.location_
             _, eigvecs_mcd = np.linalg.eigh(mcd.covariance)
             k = min(k, np.linalg.matrix_rank(mcd.covariance, hermitian=True))
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
         self.n_components = k
-        X = pca.inverse_transform(X)
         self.components_ = loadings @ self.components_
-        self.location_ = np.mean(X, axis=0)
+        self.location_ = loadings @ self.location_ + pca.mean_
         return self
-- 
2.43.0


From 55773817be16470caa83e4db02a5b179ca963617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 18/53] fix: DDC predictions use min_correlation instead of a
 fixed 0.5

---
 robpy/outliers/ddc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index b09026c..84ddb77 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -395,7 +395,7 @@ class DDC(OutlierMixin):
             weights = np.repeat(
                 [
                     [
-                        np.abs(r) * (np.abs(r) >= 0.5) * (idx != i)
+                        np.abs(r) * (np.abs(r) >= self.min_correlation) * (idx != i)
                         for idx, r in enumerate(self.robust_correlation_[:, i])
                     ]
                 ],
-- 
2.43.0


From c101681abc0dd22f26be597774e60a11e6e15ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:17 +0000
Subject: [PATCH 19/53] fix: DDC raises the documented ValueError when it is
 used before fit

---
 robpy/outliers/ddc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index 84ddb77..eb87e11 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -116,7 +116,7 @@ class DDC(OutlierMixin):
             - If rowwise is False: A matrix of shape (n_samples, n_features) with cellwise outliers
               and an array containing the standardized residuals of the cells.
         """
-        if not self.is_fitted_:
+        if not getattr(self, "is_fitted_", False):
             raise ValueError("Model not fitted yet.")
         if not X.shape[1] == self.cellwise_outliers_.shape[1]:
             raise ValueError(
@@ -193,7 +193,7 @@ class DDC(OutlierMixin):
         return row_outliers
 
     def impute(self, X: pd.DataFrame, impute_outliers: bool = True) -> pd.DataFrame:
-        if not self.is_fitted_:
+        if not getattr(self, "is_fitted_", False):
             raise ValueError("Model not fitted yet.")
         if X.shape[1] != self.cellwise_outliers_.shape[1]:
             raise ValueError(
@@ -264,7 +264,7 @@ class DDC(OutlierMixin):
         Returns:
             Axes: The matplotlib axes with the heatmap.
         """
-        if not self.is_fitted_:
+        if not getattr(self, "is_fitted_", False):
             raise ValueError("Model not fitted yet.")
         if cmap == "custom":
             cmap = get_custom_cmap(vmax_clip)
-- 
2.43.0


From 7175645be6d31e8edbf449016273aba140a57ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 20/53] fix: CellMCD uses the variances for the prediction
 errors of rows without any unflagged cell

---
 robpy/covariance/cellmcd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 5c01467..8d74bed 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -330,7 +330,7 @@ class CellMCD(RobustCovariance):
 
             else:  # all missings in the w-pattern
                 predictions, conditional_variances = self._predict_all_missing(
-                    predictions, conditional_variances, row_idx_w, mu, sigma_inv
+                    predictions, conditional_variances, row_idx_w, mu, sigma
                 )
 
         return predictions, conditional_variances
@@ -624,12 +624,12 @@ class CellMCD(RobustCovariance):
         conditional_variances: np.ndarray,
         row_idx_w: np.array,
         mu: np.array,
-        sigma_inv: np.ndarray,
+        sigma: np.ndarray,
     ):
         """Make predictions when all values in the w-pattern are missing."""
         for index in row_idx_w:
             predictions[index, :] = mu
-            conditional_variances[index, :] = np.diag(sigma_inv)
+            conditional_variances[index, :] = np.diag(sigma)
 
         return predictions, conditional_variances
 
-- 
2.43.0


From 000f950cf57cf9d726e0054a4740161d1f863bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 21/53] fix: CellMCD flags cells with the requested quantile
 instead of a fixed 0.99

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 8d74bed..25000b1 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -358,7 +358,7 @@ class CellMCD(RobustCovariance):
         objective_values = np.full(self.max_c_steps + 1, np.nan)
         step = 0
         q = (
-            chi2.ppf(0.99, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
+            chi2.ppf(self.quantile, 1) - np.log(np.diag(initial_cov_inv)) + np.log(2 * np.pi)
         )  # equation (21)
         penalty = np.sum(q * np.sum(1 - initial_W, axis=0))
         objective_values[step] = (
-- 
2.43.0


From a4337181bef204aefaf02e6e97c6214801d0a9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 22/53] fix: CellMCD keeps the flags of the previous C-step
 when it returns that step

---
 robpy/covariance/cellmcd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 25000b1..c98aefe 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -449,6 +449,7 @@ class CellMCD(RobustCovariance):
         """Part (a) of the C-step: updating the matrix W while keeping mu and sigma unchanged.
         This is done per column."""
 
+        W = W.copy()
         n = W.shape[0]
         ordering = np.argsort(np.sum(W, axis=0), kind="stable")
         for j in ordering:
-- 
2.43.0


From c60d2c1cca98e1b4ffe34fae18b8abbab2204b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:34 +0000
Subject: [PATCH 23/53] fix: CellMCD does not truncate the imputed values of
 integer data

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index c98aefe..f672d7a 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -118,7 +118,7 @@ class CellMCD(RobustCovariance):
         location = scaler.locations_ + location * scaler.scales_
         predictions = scaler.locations_ + predictions * scaler.scales_
         conditional_stds = np.sqrt(conditional_variances) * scaler.scales_
-        X_imputed = X.copy()
+        X_imputed = X.astype(float)
         X_imputed[W == 0] = predictions[W == 0]
         residuals = (X - predictions) / conditional_stds
         scaler_residuals = RobustScaler(scale_estimator=OneStepWrapping())
-- 
2.43.0


From b1116d3ce77c4a5204b33a0081646feaa790fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 24/53] fix: InitialDDCW flags the fraction of cells that alpha
 allows instead of a fixed 25%

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index a309e70..f98d034 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -66,7 +66,7 @@ class InitialDDCW(RobustCovariance):
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-            W[ordering[0 : int(n * 0.25)], i] = True
+            W[ordering[0 : int(n * (1 - self.alpha))], i] = True
         Zimp = np.copy(X)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
             pd.DataFrame(X), impute_outliers=True
-- 
2.43.0


From 9321d8e4cb230a418e9ca8d6841ead786590b998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 25/53] fix: CellMCD and InitialDDCW leave their alpha
 parameter unchanged when fitted

---
 robpy/covariance/cellmcd.py      | 14 +++++++-------
 robpy/covariance/initial_ddcw.py |  6 +++---
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index f672d7a..4594f5c 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -80,7 +80,7 @@ class CellMCD(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
@@ -97,7 +97,7 @@ class CellMCD(RobustCovariance):
         self._check_data(X_scaled)
 
         # Step 2: calculate the initial estimates
-        ddcw = InitialDDCW(alpha=self.alpha, min_eigenvalue=self.min_eigenvalue)
+        ddcw = InitialDDCW(alpha=self.alpha_, min_eigenvalue=self.min_eigenvalue)
         ddcw.fit(X_scaled)
         initial_location = ddcw.location_
         initial_cov = ddcw.covariance_
@@ -352,7 +352,7 @@ class CellMCD(RobustCovariance):
         """
         n, p = X_scaled.shape
 
-        h = round(self.alpha * n)
+        h = round(self.alpha_ * n)
         initial_W = np.ones([n, p])
         initial_W[np.isnan(X_scaled)] = 0
         objective_values = np.full(self.max_c_steps + 1, np.nan)
@@ -645,17 +645,17 @@ class CellMCD(RobustCovariance):
 
         cutoff = np.sqrt(chi2.ppf(self.quantile, 1))
         n_marginal_outliers = np.sum(np.abs(X) > cutoff, axis=0) / X.shape[0]
-        if np.max(n_marginal_outliers) > 1 - self.alpha:
+        if np.max(n_marginal_outliers) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of "
                 "marginal  outliers."
             )
 
         X[np.abs(X) > cutoff] = np.nan
         n_bad_values = np.isnan(X).sum(axis=0) / X.shape[0]
-        if np.max(n_bad_values) > 1 - self.alpha:
+        if np.max(n_bad_values) > 1 - self.alpha_:
             raise ValueError(
-                f"\nAt least one variable has more than {100 * (1 - self.alpha)}% of nan's or "
+                f"\nAt least one variable has more than {100 * (1 - self.alpha_)}% of nan's or "
                 "marginal outliers."
             )
 
diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index f98d034..b7d0eef 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -55,18 +55,18 @@ class InitialDDCW(RobustCovariance):
                     f"h = alpha*n is too small and therefore set to [n/2] + 1"
                     f" ({(int(n / 2) + 1.0) / n})."
                 )
-            self.alpha = np.max([self.alpha, (int(n / 2) + 1.0) / n])
+            self.alpha_ = np.max([self.alpha, (int(n / 2) + 1.0) / n])
         else:
             raise ValueError(f"alpha must a float between 0.5 and 1, but received {self.alpha}.")
 
         # DDC with constraint -> imputed and rescaled Zimp:
         ddc = DDC(chi2_quantile=0.9, scale_estimator=OneStepWrapping()).fit(pd.DataFrame(X))
         W = np.copy(ddc.cellwise_outliers_)
-        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha)[0]
+        flagged_too_many = np.where(np.sum(W, axis=0) / X.shape[0] > 1 - self.alpha_)[0]
         for i in flagged_too_many:
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
-            W[ordering[0 : int(n * (1 - self.alpha))], i] = True
+            W[ordering[0 : int(n * (1 - self.alpha_))], i] = True
         Zimp = np.copy(X)
         Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
             pd.DataFrame(X), impute_outliers=True
-- 
2.43.0


From e27d220df11912893980f1dea4b313c1034dbe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 26/53] fix: DataCleaner decides on the order of cleaning for
 every data set it transforms

---
 robpy/preprocessing/data_cleaner.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 49d6d82..50d5e98 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -167,16 +167,17 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols_and_rows(self, X: pd.DataFrame):
         """Clean missing values."""
-        if self.clean_na_first == "automatic":
-            self.clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
+        clean_na_first = self.clean_na_first
+        if clean_na_first == "automatic":
+            clean_na_first = "columns" if X.shape[1] >= 5 * X.shape[0] else "rows"
 
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
-        if self.clean_na_first == "columns":
+        if clean_na_first == "columns":
             self._set_missing_cols(X)
             self._set_missing_rows(X)
-        elif self.clean_na_first == "rows":
+        elif clean_na_first == "rows":
             self._set_missing_rows(X)
             self._set_missing_cols(X)
         else:
-- 
2.43.0


From c9a627f7d33a1a3231b7fbd3d7910e6cc92cc8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:42 +0000
Subject: [PATCH 27/53] fix: DataCleaner does not reuse the dropped rows and
 columns of an earlier transform

---
 robpy/preprocessing/data_cleaner.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index 50d5e98..dbbe105 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -174,6 +174,8 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
         X = X.replace([np.inf, -np.inf], np.nan).drop(
             columns=self.non_numeric_cols + self.cols_discrete + self.cols_bad_scale
         )
+        # forget the outcome for the previously transformed data
+        self.cols_missings, self.rows_missings = [], []
         if clean_na_first == "columns":
             self._set_missing_cols(X)
             self._set_missing_rows(X)
@@ -204,12 +206,10 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _set_missing_cols(self, X: pd.DataFrame):
         """Remove columns with too many missings"""
-        if hasattr(self, "rows_missings"):
-            X = X.drop(index=self.rows_missings)
+        X = X.drop(index=self.rows_missings)
         self.cols_missings = X.columns[X.isna().mean() >= self.max_missing_frac_cols].tolist()
 
     def _set_missing_rows(self, X: pd.DataFrame):
         """Remove rows with too many missings"""
-        if hasattr(self, "cols_missings"):
-            X = X.drop(columns=self.cols_missings)
+        X = X.drop(columns=self.cols_missings)
         self.rows_missings = X.index[X.isna().mean(axis=1) >= self.max_missing_frac_rows].tolist()
-- 
2.43.0


From 878bda34884e8dc5ddd29a84a61130ebe7f50461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:22 +0000
Subject: [PATCH 28/53] fix: RobustPowerTransformer extends the lambda range
 instead of raising TypeError

---
 robpy/preprocessing/transfo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 776a8cf..d270004 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -154,7 +154,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range)
         converged = False
         while not converged:
             if self.standardize:
@@ -185,7 +185,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         Args:
             x (np.ndarray): The data.
         """
-        lambdarange = self.lambda_range
+        lambdarange = np.array(self.lambda_range)
         converged = False
         while not converged:
             if self.standardize:
-- 
2.43.0


From 13d7662ba1faaf290486b321d3f643886c6adb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 29/53] fix: RobustPowerTransformer standardizes once when it
 extends the lambda range

---
 robpy/preprocessing/transfo.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index d270004..42468b5 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -156,12 +156,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         lambdarange = np.array(self.lambda_range)
         converged = False
+        if self.standardize:
+            scale_boxcox = np.median(x)
+            x = x / scale_boxcox
+        else:
+            scale_boxcox = None
         while not converged:
-            if self.standardize:
-                scale_boxcox = np.median(x)
-                x = x / scale_boxcox
-            else:
-                scale_boxcox = None
             lambda_raw = self._calculate_lambda_0(x, "boxcox_rect", lambdarange)
             lambda_rew, mu_rew_boxcox, sd_rew_boxcox = self._reweighted_max_likelihood_robust(
                 x,
@@ -187,13 +187,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         lambdarange = np.array(self.lambda_range)
         converged = False
+        if self.standardize:
+            loc_yeojohnson = np.median(x)
+            scale_yeojohnson = median_abs_deviation(x, scale="normal")
+            x = (x - loc_yeojohnson) / scale_yeojohnson
+        else:
+            loc_yeojohnson, scale_yeojohnson = None, None
         while not converged:
-            if self.standardize:
-                loc_yeojohnson = np.median(x)
-                scale_yeojohnson = median_abs_deviation(x, scale="normal")
-                x = (x - loc_yeojohnson) / scale_yeojohnson
-            else:
-                loc_yeojohnson, scale_yeojohnson = None, None
             lambda_raw = self._calculate_lambda_0(x, "yeojohnson_rect", lambdarange)
             (
                 lambda_rew,
-- 
2.43.0


From 92ebe3bf9178174df2250c1298275f7750c13185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:09 +0000
Subject: [PATCH 30/53] fix: RobustPowerTransformer standardizes with the
 reweighted observations between its reweighting steps

---
 robpy/preprocessing/transfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 42468b5..8698c2e 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -544,7 +544,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 xt = self._transf_boxcox(x, lambda_rew, standardize_too=False)[0]
             elif transf == "yeojohnson":
                 xt = self._transf_yeojohnson(x, lambda_rew, standardize_too=False)[0]
-            zt = (xt - np.mean(xt)) / np.std(xt)
+            zt = (xt - np.mean(xt[w])) / np.std(xt[w])
 
         mu_rew = np.mean(xt[w])
         sd_rew = np.std(xt[w])
-- 
2.43.0


From bca8c627d09ff9864709a941f41b51046cafe7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:18 +0000
Subject: [PATCH 31/53] fix: RobustPowerTransformer keeps method='auto' when
 fitted, so that it can be fitted again

---
 robpy/preprocessing/transfo.py | 41 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 8698c2e..177d70b 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -57,12 +57,12 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         self._get_method(x)
         x_sorted = np.sort(x)
 
-        if self.method in ["boxcox", "auto"]:
+        if self.method_ in ["boxcox", "auto"]:
             lambda_boxcox, mu_rew_boxcox, sd_rew_boxcox, scale_boxcox = self._fit_boxcox(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_boxcox = self._robnormality(x, "boxcox", lambda_boxcox)
 
-        if self.method in ["yeojohnson", "auto"]:
+        if self.method_ in ["yeojohnson", "auto"]:
             (
                 lambda_yeojohnson,
                 mu_rew_yeojohnson,
@@ -70,16 +70,16 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 loc_yeojohnson,
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
-            if self.method == "auto":
+            if self.method_ == "auto":
                 crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
 
-        if self.method == "auto":
+        if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-                self.method = "boxcox"
+                self.method_ = "boxcox"
             else:
-                self.method = "yeojohnson"
+                self.method_ = "yeojohnson"
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 self.scale_pre = scale_boxcox
                 self.location_post = mu_rew_boxcox
@@ -102,7 +102,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError(
                     "The data is not strictly positive. Box-Cox transformation "
@@ -130,7 +130,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             x (np.ndarray): The data.
         """
 
-        if self.method == "boxcox":
+        if self.method_ == "boxcox":
             if self.standardize:
                 x = x * self.scale_post + self.location_post
             x = self._handle_bounds(x)
@@ -220,13 +220,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
 
         lower_bound, upper_bound = None, None
 
-        if self.method == "boxcox" and self.lambda_rew > 0.0:
+        if self.method_ == "boxcox" and self.lambda_rew > 0.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew)
-        elif self.method == "boxcox" and self.lambda_rew < 0.0:
+        elif self.method_ == "boxcox" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
-        elif self.method == "yeojohnson" and self.lambda_rew > 2.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew > 2.0:
             lower_bound = -1.0 / np.abs(self.lambda_rew - 2.0)
-        elif self.method == "yeojohnson" and self.lambda_rew < 0.0:
+        elif self.method_ == "yeojohnson" and self.lambda_rew < 0.0:
             upper_bound = 1.0 / np.abs(self.lambda_rew)
 
         return lower_bound, upper_bound
@@ -237,7 +237,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if lower_bound is not None and np.min(x) < lower_bound:
             new_bound = 0.95 * lower_bound
             self.logger.info(
-                f"Some (standardized) values in x are below the range of the {self.method} "
+                f"Some (standardized) values in x are below the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -246,7 +246,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         if upper_bound is not None and np.max(x) > upper_bound:
             new_bound = 0.95 * upper_bound
             self.logger.info(
-                f"Some (standardized) values in x are above the range of the {self.method} "
+                f"Some (standardized) values in x are above the range of the {self.method_} "
                 f"transformation. These values were replaced by {new_bound} so they "
                 "can be transformed back."
             )
@@ -586,13 +586,14 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         return lambda_est
 
     def _get_method(self, x: np.ndarray):
-        if self.method == "boxcox":
+        self.method_ = self.method
+        if self.method_ == "boxcox":
             if np.min(x) <= 0:
                 raise ValueError("The data is not strictly positive. Box-Cox cannot be applied.")
-        elif self.method == "auto":
+        elif self.method_ == "auto":
             if np.min(x) <= 0:
-                self.method = "yeojohnson"
-        elif self.method != "yeojohnson":
+                self.method_ = "yeojohnson"
+        elif self.method_ != "yeojohnson":
             raise ValueError(
                 'The only supported methods of transformation are "boxcox", "yeojohnson" or "auto".'
             )
-- 
2.43.0


From ccaa74412db61d1d72ab0d876b8507b5600d9847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 32/53] fix: DetMCD handles an observation that coincides with
 the coordinatewise median

---
 robpy/covariance/mcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index b1650bc..214ef8f 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -404,7 +404,7 @@ class DetMCD(RobustCovariance):
         S2 = np.corrcoef(R, rowvar=False)
         S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
-        w = 1 / znorm
+        w = 1 / np.where(znorm == 0, 1, znorm)
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
         S5 = np.cov(Z[idx, :], rowvar=False)
-- 
2.43.0


From d9676eb42c2f86978f9b15cefe20aec50acf46e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 33/53] fix: covariance estimators and outlier maps accept data
 with a single variable

---
 robpy/covariance/base.py     |  2 +-
 robpy/covariance/mcd.py      | 24 ++++++++++++------------
 robpy/covariance/ogk.py      |  2 +-
 robpy/covariance/wrapping.py |  4 ++--
 robpy/regression/base.py     |  2 +-
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/robpy/covariance/base.py b/robpy/covariance/base.py
index 3abadbf..fa3d6de 100644
--- a/robpy/covariance/base.py
+++ b/robpy/covariance/base.py
@@ -79,7 +79,7 @@ class RobustCovariance(EmpiricalCovariance):
         self._set_covariance(covariance)
         if self.store_precision:
             self.precision_ = pinvh(covariance)
-        self.default_covariance_ = np.cov(X, rowvar=False)
+        self.default_covariance_ = np.atleast_2d(np.cov(X, rowvar=False))
         self._robust_distances = mahalanobis_distance(
             X, location=self.location_, covariance=self.covariance_
         )
diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 214ef8f..50f87a7 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -100,7 +100,7 @@ class FastMCD(RobustCovariance):
         if self.alpha == 1 or self.alpha == X.shape[0]:
             self.logger.warning(f"Default covariance is returned as alpha is {self.alpha}.")
             self.location_ = X.mean(0)
-            return np.cov(X, rowvar=False)
+            return np.atleast_2d(np.cov(X, rowvar=False))
         self.rng = np.random.default_rng(self.random_seed)
         self._n_total = X.shape[0]
         # partition data (n_partitions > 1 can speed up algorithm for large datasets)
@@ -149,7 +149,7 @@ class FastMCD(RobustCovariance):
             distances = mahalanobis_distance(X, best_subset.location, scale)
             self._mask = distances < np.sqrt(chi2.ppf(0.975, X.shape[1]))
             self.location_ = X[self._mask].mean(axis=0)
-            scale = np.cov(X[self._mask], rowvar=False)
+            scale = np.atleast_2d(np.cov(X[self._mask], rowvar=False))
             if self.correct_covariance:
                 # See Croux & Haesbroeck 1999 and R code for robustbase>covMcd>MCDCons
                 # (https://rdrr.io/cran/robustbase/src/R/covMcd.R)
@@ -253,14 +253,14 @@ class FastMCD(RobustCovariance):
 
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = self.rng.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
@@ -325,7 +325,7 @@ class DetMCD(RobustCovariance):
         if self.alpha == 1 or self.alpha == X.shape[0]:
             self.logger.warning(f"Default covariance is returned as alpha is {self.alpha}.")
             self.location_ = X.mean(0)
-            return np.cov(X, rowvar=False)
+            return np.atleast_2d(np.cov(X, rowvar=False))
 
         n, p = X.shape
 
@@ -364,7 +364,7 @@ class DetMCD(RobustCovariance):
             distances = mahalanobis_distance(X, best_subset.location, scale)
             self._mask = distances < np.sqrt(chi2.ppf(0.975, X.shape[1]))
             self.location_ = X[self._mask].mean(axis=0)
-            scale = np.cov(X[self._mask], rowvar=False)
+            scale = np.atleast_2d(np.cov(X[self._mask], rowvar=False))
             if self.correct_covariance:
                 # See Croux & Haesbroeck 1999 and R code for robustbase>covMcd>MCDCons
                 # (https://rdrr.io/cran/robustbase/src/R/covMcd.R)
@@ -399,15 +399,15 @@ class DetMCD(RobustCovariance):
     def _get_initial_best_subsets(self, Z: np.ndarray, X: np.ndarray, n: int, p: int):
         # Step 1: construct 6 preliminary estimates Sk of covariance or correlation
         Y = np.tanh(Z)
-        S1 = np.corrcoef(Y, rowvar=False)
+        S1 = np.atleast_2d(np.corrcoef(Y, rowvar=False))
         R = rankdata(Z, axis=0)
-        S2 = np.corrcoef(R, rowvar=False)
-        S3 = np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False)
+        S2 = np.atleast_2d(np.corrcoef(R, rowvar=False))
+        S3 = np.atleast_2d(np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)), rowvar=False))
         znorm = np.sqrt(np.sum(Z * Z, axis=1))
         w = 1 / np.where(znorm == 0, 1, znorm)
         S4 = np.dot((Z * w[:, np.newaxis]).T, (Z * w[:, np.newaxis])) / n
         idx = np.argsort(znorm)[: math.ceil(n / 2)]
-        S5 = np.cov(Z[idx, :], rowvar=False)
+        S5 = np.atleast_2d(np.cov(Z[idx, :], rowvar=False))
         S6 = OGK(
             location_estimator=np.median, scale_estimator=self._Qn_scale, reweighting=False
         ).calculate_covariance(Z)
@@ -488,14 +488,14 @@ class DetMCD(RobustCovariance):
             Hsubset.
         """
         mu = X[indices].mean(axis=0)
-        cov = np.cov(X[indices], rowvar=False)
+        cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
         det = np.linalg.det(cov)
         if ensure_non_singular:
             while math.isclose(det, 0):
                 new_index = np.random.choice(np.delete(np.arange(X.shape[0]), indices))
                 indices = np.append(indices, new_index)
                 mu = X[indices].mean(axis=0)
-                cov = np.cov(X[indices], rowvar=False)
+                cov = np.atleast_2d(np.cov(X[indices], rowvar=False))
                 det = np.linalg.det(cov)
         return HSubset(indices, mu, cov, det, n_c_steps=n_c_steps)
 
diff --git a/robpy/covariance/ogk.py b/robpy/covariance/ogk.py
index 80765a3..fc90a97 100644
--- a/robpy/covariance/ogk.py
+++ b/robpy/covariance/ogk.py
@@ -90,7 +90,7 @@ class OGK(RobustCovariance):
                 mahalanobis
             )  # mahalanobis is the sqrt distance, so we need to take the sqrt of the chi2 quantiles
             mask = mahalanobis < cutoff
-            cov_X = np.cov(X[mask], rowvar=False)
+            cov_X = np.atleast_2d(np.cov(X[mask], rowvar=False))
             mu_X = np.mean(X[mask], axis=0)
         self.location_ = mu_X.flatten()
 
diff --git a/robpy/covariance/wrapping.py b/robpy/covariance/wrapping.py
index 56e1d00..e0e249c 100644
--- a/robpy/covariance/wrapping.py
+++ b/robpy/covariance/wrapping.py
@@ -77,5 +77,5 @@ class WrappingCovariance(RobustCovariance):
         X_transformed = wrapping_transformation(
             X, b=self.b, c=self.c, q1=self.q1, q2=self.q2, rescale=True
         )
-        self.correlation_ = np.corrcoef(X_transformed, rowvar=False)
-        return np.cov(X_transformed, rowvar=False)
+        self.correlation_ = np.atleast_2d(np.corrcoef(X_transformed, rowvar=False))
+        return np.atleast_2d(np.cov(X_transformed, rowvar=False))
diff --git a/robpy/regression/base.py b/robpy/regression/base.py
index c3dec59..db58a3b 100644
--- a/robpy/regression/base.py
+++ b/robpy/regression/base.py
@@ -95,7 +95,7 @@ class RobustRegression(RegressorMixin, BaseEstimator):
             covariance = mcd.covariance_
             location = mcd.location_
         else:
-            covariance = np.cov(X, rowvar=False)
+            covariance = np.atleast_2d(np.cov(X, rowvar=False))
             location = np.mean(X, axis=0)
         distances = mahalanobis_distance(X, location=location, covariance=covariance)
 
-- 
2.43.0


From 324cb7cd2c7824896ee9045990ed425b7c7012e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:04 +0000
Subject: [PATCH 34/53] fix: MMRegression accepts any robust regression as
 initial estimator and returns it in case of an exact fit

---
 robpy/regression/mm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 5f833bb..1b6249b 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -48,14 +48,16 @@ class MMRegression(RobustRegression):
         self.model = self.initial_estimator.fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
+        if self._scale == 0:  # exact fit: the initial model already fits most observations perfectly
+            return self
         for i in range(self.max_iterations):
-            residuals = y - self.model.predict(X)
+            residuals = y - self.model.predict(X).reshape(y.shape)
             # avoid divide by 0 errors
             scaled_residuals = np.where(residuals == 0, np.finfo(np.float64).eps, residuals)
             scaled_residuals = scaled_residuals / self._scale
             weights = self.rho.psi(scaled_residuals) / scaled_residuals
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
-            new_residuals = y - self.model.predict(X)
+            new_residuals = y - self.model.predict(X).reshape(y.shape)
             self.n_iter = i + 1
             if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
                 break
-- 
2.43.0


From b3100a08493fba16ed20c32f0f63a89c1cca21e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 35/53] fix: l1median does not get stuck next to an observation

---
 robpy/utils/median.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/robpy/utils/median.py b/robpy/utils/median.py
index d597bed..532183f 100644
--- a/robpy/utils/median.py
+++ b/robpy/utils/median.py
@@ -16,6 +16,7 @@ def l1median(X: np.ndarray) -> float:
     """
     epsilon = 1e-7
     mu_0 = np.mean(X, axis=0)
+    tried = np.zeros(len(X), dtype=bool)
     while True:
         centered_X = X - mu_0
         d = np.sqrt(np.sum(centered_X * centered_X, axis=1))
@@ -32,7 +33,12 @@ def l1median(X: np.ndarray) -> float:
         # relative to the scale of the data, and not below the rounding error
         tolerance = epsilon * np.median(d) + 4 * np.finfo(float).eps * np.sum(np.abs(mu_0))
         if np.sum(np.abs(mu_0 - mu_1)) <= tolerance:
-            return mu_1
+            nearest = np.argmin(d)
+            if tried[nearest] or d[nearest] > 1e4 * tolerance:
+                return mu_1
+            # small steps can also result from a nearby observation: continue from there
+            tried[nearest] = True
+            mu_0 = X[nearest]
         else:
             mu_0 = mu_1
 
-- 
2.43.0


From 3613ad823a93a7fb3a2e7e8f38930e21a5ac6dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 36/53] fix: ROBPCA keeps observations with zero orthogonal
 distance

---
 robpy/pca/robpca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index e2e4604..0d138a3 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -97,7 +97,7 @@ class ROBPCA(RobustPCA):
         X_proj = (X - self.location_) @ h_components @ h_components.T
         # step 4: orthogonal distance
         orth_dist = np.linalg.norm((X - self.location_) - X_proj, axis=1)
-        v_index = np.argwhere(orth_dist < get_od_cutoff(orth_dist)).flatten()
+        v_index = np.argwhere(orth_dist <= get_od_cutoff(orth_dist)).flatten()
         cov_v = np.cov(X[v_index], rowvar=False)
         self.location_ = np.mean(X[v_index], axis=0)
         eigvals_v, eigvecs_v = np.linalg.eigh(cov_v)
-- 
2.43.0


From 1dfccd3b00cc6df4d0ba1d7af75df6e59f07fa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 37/53] fix: ROBPCA reports one explained variance per
 component when the rank is smaller than n_components

---
 robpy/pca/robpca.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/robpy/pca/robpca.py b/robpy/pca/robpca.py
index 0d138a3..19cbb87 100644
--- a/robpy/pca/robpca.py
+++ b/robpy/pca/robpca.py
@@ -113,6 +113,8 @@ class ROBPCA(RobustPCA):
             self.components_ = self.components_ @ np.flip(eigvecs_mcd[:, -k:], axis=1)
         # step 6: transform back to original X
         self.n_components = k
+        self.explained_variance_ = self.explained_variance_[:k]
+        self.explained_variance_ratio = self.explained_variance_ratio[:k]
         self.components_ = loadings @ self.components_
         self.location_ = loadings @ self.location_ + pca.mean_
         return self
-- 
2.43.0


From 0760f031061973f83b4e6b5233c35aaa99c832af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 38/53] fix: rectified Yeo-Johnson transformation is linear
 with the slope at the changepoint, also when that has the other sign

---
 robpy/preprocessing/transfo.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 177d70b..3e9da1a 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -382,15 +382,9 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 xt[positive_mask] = ((1 + x[positive_mask]) ** my_lambda - 1.0) / my_lambda
                 if my_lambda == 2:
                     xt[mask_upper] = -np.log(1 - x[mask_upper])
-                    xt[mask_lower] = -np.log(1 - changepoint) + (
-                        x[mask_lower] - changepoint
-                    ) * 1 / (1 - changepoint)
                 else:
                     xt[mask_upper] = -((1 - x[mask_upper]) ** (2 - my_lambda) - 1) / (2 - my_lambda)
-                    changepoint_transf = self._transf_yeojohnson(changepoint, my_lambda)[0]
-                    xt[mask_lower] = changepoint_transf + (x[mask_lower] - changepoint) * (
-                        1 + np.abs(changepoint)
-                    ) ** (1 - my_lambda)
+                mask_linear = mask_lower
             else:
                 mask_upper = x > changepoint
                 mask_lower = (x >= 0) & (x <= changepoint)
@@ -399,15 +393,13 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 )
                 if my_lambda == 0.0:
                     xt[mask_lower] = np.log(1 + x[mask_lower])
-                    xt[mask_upper] = np.log(1 + changepoint) + (x[mask_upper] - changepoint) * 1 / (
-                        1 + changepoint
-                    )
                 else:
                     xt[mask_lower] = ((1 + x[mask_lower]) ** my_lambda - 1) / my_lambda
-                    changepoint_transf = self._transf_yeojohnson(changepoint, my_lambda)[0]
-                    xt[mask_upper] = changepoint_transf + (x[mask_upper] - changepoint) * (
-                        1 + np.abs(changepoint)
-                    ) ** (my_lambda - 1)
+                mask_linear = mask_upper
+            # linear beyond the changepoint (of any sign), with the slope at the changepoint
+            changepoint_transf = self._transf_yeojohnson(changepoint, my_lambda)[0]
+            slope = (1 + np.abs(changepoint)) ** (np.sign(changepoint) * (my_lambda - 1))
+            xt[mask_linear] = changepoint_transf + (x[mask_linear] - changepoint) * slope
 
         if standardize_too:
             loc_scale = HuberOneStepM().fit(xt)
-- 
2.43.0


From 4088cce87bd293ab41a0a47cf78e76d6fcd1ef99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 39/53] fix: power transformations of integer data are not
 truncated to integers

---
 robpy/preprocessing/transfo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index 3e9da1a..fe72a8e 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -263,7 +263,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
             raise ValueError(
                 "Data values should be strictly positive for a Box-Cox transformation."
             )
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x - 1.0
@@ -341,7 +341,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.log(1.0 + x[positive_mask])
@@ -366,7 +366,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
     ):
         """Rectified Yeo-Johnson transformation."""
 
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 1.0:
             xt = x
@@ -446,7 +446,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """Classical Yeo-Johnson transformation inversed."""
 
         positive_mask = x >= 0.0
-        xt = np.zeros_like(x)
+        xt = np.zeros_like(x, dtype=float)
 
         if my_lambda == 0.0:
             xt[positive_mask] = np.exp(x[positive_mask]) - 1.0
-- 
2.43.0


From 2b2ab7c2be2c7776ea8353dd751c09e5f113f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 40/53] fix: automatic choice of the power transformation
 compares the transformations that are applied

---
 robpy/preprocessing/transfo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index fe72a8e..e69f982 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -71,7 +71,9 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
                 scale_yeojohnson,
             ) = self._fit_yeojohnson(x_sorted)
             if self.method_ == "auto":
-                crit_val_yeojohnson = self._robnormality(x, "yeojohnson", lambda_yeojohnson)
+                # the criterion of the data as they are transformed
+                z = (x - loc_yeojohnson) / scale_yeojohnson if self.standardize else x
+                crit_val_yeojohnson = self._robnormality(z, "yeojohnson", lambda_yeojohnson)
 
         if self.method_ == "auto":
             if crit_val_boxcox < crit_val_yeojohnson:
-- 
2.43.0


From 22a240d27728fb6fbc331aa7ae809671ff529b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 41/53] fix: infinite cells do not count as distinct values in
 DataCleaner

---
 robpy/preprocessing/data_cleaner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/robpy/preprocessing/data_cleaner.py b/robpy/preprocessing/data_cleaner.py
index dbbe105..18b6419 100644
--- a/robpy/preprocessing/data_cleaner.py
+++ b/robpy/preprocessing/data_cleaner.py
@@ -190,6 +190,7 @@ class DataCleaner(OneToOneFeatureMixin, TransformerMixin, BaseEstimator):
 
     def _get_discrete_columns_to_drop(self, X: pd.DataFrame):
         """Store columns with a small number of unique values (discrete columns) to drop."""
+        X = X.replace([np.inf, -np.inf], np.nan)
         self.cols_discrete = X.columns[X.nunique() <= self.min_unique_values].tolist()
 
     def _get_bad_scale_columns_to_drop(self, X: pd.DataFrame):
-- 
2.43.0


From db72b1e2eea83e533d75ded0dbfab2cf9cbcb105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:39 +0000
Subject: [PATCH 42/53] fix: CellMCD with crit of at least 1 performs a first
 C-step instead of raising UnboundLocalError

---
 robpy/covariance/cellmcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/cellmcd.py b/robpy/covariance/cellmcd.py
index 4594f5c..9429d5b 100644
--- a/robpy/covariance/cellmcd.py
+++ b/robpy/covariance/cellmcd.py
@@ -365,7 +365,7 @@ class CellMCD(RobustCovariance):
             objective_function(X_scaled, initial_W, initial_location, initial_cov, initial_cov_inv)
             + penalty
         )
-        convergence_criteria = 1
+        convergence_criteria = np.inf
         W_old = initial_W
         location_old = initial_location
         cov_old = initial_cov
-- 
2.43.0


From 2a76a5b266b7b2ab63d3de416661743564dba566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 43/53] fix: InitialDDCW deletes outlying cases by distances in
 standardized units

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index b7d0eef..f717064 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -99,7 +99,7 @@ class InitialDDCW(RobustCovariance):
         )
         cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
         cov = covariance_to_correlation(cov)
-        cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
+        cov = truncated_covariance(cov, self.min_eigenvalue)  # scatter of the standardized data
 
         # temporary points: delete casewise outliers
         U = np.minimum(np.maximum(Z, -2), 2)
-- 
2.43.0


From 8b5a18ceb75c9c584f9ce0bcd0fe748a38e42870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:22 +0000
Subject: [PATCH 44/53] fix: InitialDDCW imputes cells with unrounded
 predictions

---
 robpy/covariance/initial_ddcw.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index f717064..d5b1c8b 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -68,9 +68,8 @@ class InitialDDCW(RobustCovariance):
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * (1 - self.alpha_))], i] = True
         Zimp = np.copy(X)
-        Zimp[np.logical_or(W, np.isnan(X))] = ddc.impute(
-            pd.DataFrame(X), impute_outliers=True
-        ).to_numpy()[np.logical_or(W, np.isnan(X))]
+        to_impute = np.logical_or(W, np.isnan(X))
+        Zimp[to_impute] = np.asarray(ddc.rescaled_predictions_)[to_impute]  # impute() rounds
         Z = (X - ddc.location_) / ddc.scale_
         Zimp = (Zimp - ddc.location_) / ddc.scale_
         Zimp_original = np.copy(Zimp)
-- 
2.43.0


From b4148698f0dbf82a0b6c80a76325901ec0d9eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 45/53] fix: InitialDDCW does not truncate imputed cells of
 integer data

---
 robpy/covariance/initial_ddcw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index d5b1c8b..29c7357 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -67,7 +67,7 @@ class InitialDDCW(RobustCovariance):
             ordering = np.argsort(np.abs(ddc.standardized_residuals_[:, i]))[::-1]
             W[:, i] = [False for _ in range(n)]
             W[ordering[0 : int(n * (1 - self.alpha_))], i] = True
-        Zimp = np.copy(X)
+        Zimp = np.array(X, dtype=float)
         to_impute = np.logical_or(W, np.isnan(X))
         Zimp[to_impute] = np.asarray(ddc.rescaled_predictions_)[to_impute]  # impute() rounds
         Z = (X - ddc.location_) / ddc.scale_
-- 
2.43.0


From 83d8df4189d3463347f7eb383be4d753404bfa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 46/53] fix: InitialDDCW with a single eigenvalue above the
 bound (collinear data)

---
 robpy/covariance/initial_ddcw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/robpy/covariance/initial_ddcw.py b/robpy/covariance/initial_ddcw.py
index 29c7357..d5b75de 100644
--- a/robpy/covariance/initial_ddcw.py
+++ b/robpy/covariance/initial_ddcw.py
@@ -96,7 +96,7 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
-        cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
+        cov = eigenvectors @ np.atleast_2d(Zimp_proj_wrapped_cov) @ eigenvectors.T  # original axes
         cov = covariance_to_correlation(cov)
         cov = truncated_covariance(cov, self.min_eigenvalue)  # scatter of the standardized data
 
@@ -128,7 +128,7 @@ class InitialDDCW(RobustCovariance):
             ),
             rowvar=False,
         )
-        cov = eigenvectors @ Zimp_proj_wrapped_cov @ eigenvectors.T  # back to original axis system
+        cov = eigenvectors @ np.atleast_2d(Zimp_proj_wrapped_cov) @ eigenvectors.T  # original axes
         cov = covariance_to_correlation(cov)
         cov = (truncated_covariance(cov, self.min_eigenvalue) * ddc.scale_).T * ddc.scale_
 
-- 
2.43.0


From 50063a65450b814928482c9eaf75d9f6c62c7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 47/53] fix: LTS and S regression do not reset NumPy's global
 random state

---
 robpy/regression/lts.py | 5 ++---
 robpy/regression/s.py   | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/robpy/regression/lts.py b/robpy/regression/lts.py
index 4ea5df6..0d7b2bb 100644
--- a/robpy/regression/lts.py
+++ b/robpy/regression/lts.py
@@ -171,7 +171,6 @@ class FastLTSRegression(RobustRegression):
         Returns:
             List of models, List of losses and List of h subsets.
         """
-        np.random.seed(self.random_state)
         lr_models = []
         losses = []
         h_subsets = []
@@ -216,8 +215,8 @@ class FastLTSRegression(RobustRegression):
             LinearRegression: A Linear Regression model fitted on a random subset.
         """
         n_obs, n_features = X.shape  # n, p
-        np.random.seed(random_state)
-        subset_idx = np.random.choice(n_obs, n_features + 1, replace=False)
+        rng = np.random.RandomState(random_state)
+        subset_idx = rng.choice(n_obs, n_features + 1, replace=False)
         lr_model = LinearRegression().fit(X[subset_idx], y[subset_idx])
         return lr_model
 
diff --git a/robpy/regression/s.py b/robpy/regression/s.py
index e9166c5..c014601 100644
--- a/robpy/regression/s.py
+++ b/robpy/regression/s.py
@@ -168,8 +168,8 @@ class SRegression(RobustRegression):
         models = []
         scales = []
         for seed in range(self.random_state, self.random_state + self.n_initial_subsets):
-            np.random.seed(seed)
-            sample_idx = np.random.choice(X.shape[0], X.shape[1] + 1, replace=False)
+            rng = np.random.RandomState(seed)
+            sample_idx = rng.choice(X.shape[0], X.shape[1] + 1, replace=False)
             model = WLS(y[sample_idx], X[sample_idx]).fit()
             residuals = model.predict(X) - y
             scale = np.median(np.abs(residuals)) / 0.6745
-- 
2.43.0


From 26c79580c604e59e2fcb83346693688159fd2734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 48/53] fix: MM regression does not refit an initial estimator
 shared with other instances

---
 robpy/regression/mm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 1b6249b..9ff081d 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+import copy
+
 import numpy as np
 import pandas as pd
 
@@ -45,7 +47,8 @@ class MMRegression(RobustRegression):
 
     def fit(self, X: np.ndarray | pd.DataFrame, y: np.ndarray | pd.Series) -> MMRegression:
         X, y = _convert_input_to_array(X, y)
-        self.model = self.initial_estimator.fit(X, y)
+        # the initial estimator may be shared with other instances
+        self.model = copy.deepcopy(self.initial_estimator).fit(X, y)
         self._scale = self.model.scale
         self.n_iter = 0
         if self._scale == 0:  # exact fit: the initial model already fits most observations perfectly
-- 
2.43.0


From 38d9151b0091c276053fae2b18accad0d3691600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 49/53] fix: RobustPowerTransformer can be cloned

---
 robpy/preprocessing/transfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/robpy/preprocessing/transfo.py b/robpy/preprocessing/transfo.py
index e69f982..a7e4084 100644
--- a/robpy/preprocessing/transfo.py
+++ b/robpy/preprocessing/transfo.py
@@ -42,7 +42,7 @@ class RobustPowerTransformer(OneToOneFeatureMixin, TransformerMixin, BaseEstimat
         """
         self.method = method
         self.standardize = standardize
-        self.lambda_range = list(lambda_range)
+        self.lambda_range = lambda_range
         self.quantile = quantile
         self.nsteps = nsteps
         self.logger = logging.getLogger("RobustPowerTransformer")
-- 
2.43.0


From 2e7e82f7bbb463b1e507dc99d59984cdc5eec075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:47 +0000
Subject: [PATCH 50/53] fix: MCD C-steps stop on the relative decrease of the
 determinant

With an absolute tolerance of 1e-8 the C-steps of DetMCD (and FastMCD) stopped
before convergence when the determinant is small: the estimate depended on the
units of the data (X and 0.1 * X gave different subsets).
---
 robpy/covariance/mcd.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/robpy/covariance/mcd.py b/robpy/covariance/mcd.py
index 50f87a7..b88c220 100644
--- a/robpy/covariance/mcd.py
+++ b/robpy/covariance/mcd.py
@@ -67,7 +67,7 @@ class FastMCD(RobustCovariance):
               This can speed up the algorithm for large datasets (n > 600 suggested in paper).
               If None, 5 partitions are used if n > 600, otherwise 1 partition is used.
             tolerance (float, optional):
-              Minimum difference in determinant between two iterations to stop the C-step.
+              Minimum relative difference in determinant between two iterations to stop the C-step.
               Defaults to 1e-8.
             correct_covariance (bool, optional):
               Whether to apply a consistency correction to the raw covariance estimate.
@@ -130,7 +130,8 @@ class FastMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (subset.determinant - new_subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant)
+                    <= self.tolerance * abs(subset.determinant)
                 ):
                     break
                 subset = new_subset
@@ -298,8 +299,8 @@ class DetMCD(RobustCovariance):
                 If None or an integer below [(n+p+1)/2], h is set to [(n+p+1)/2].
                 Defaults to None.
             tolerance (float, optional):
-                Minimum difference in determinant between two iterations to stop the C-step.
-                Defaults to 1e-8.
+                Minimum relative difference in determinant between two iterations to stop the
+                C-step. Defaults to 1e-8.
             correct_covariance (bool, optional):
                 Whether to apply a consistency correction to the raw covariance estimate.
                 Defaults to True.
@@ -345,7 +346,8 @@ class DetMCD(RobustCovariance):
                 new_subset = self._perform_c_step(subset, X)
                 if (
                     np.all(new_subset.indices == subset.indices)
-                    or (subset.determinant - new_subset.determinant) < self.tolerance
+                    or (subset.determinant - new_subset.determinant)
+                    <= self.tolerance * abs(subset.determinant)
                 ):
                     break
                 subset = new_subset
-- 
2.43.0


From 6fe593cc53f371909ceea3345fcaea435f87e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:56 +0000
Subject: [PATCH 51/53] fix: MM-regression stops on the change of the scaled
 residuals

With an absolute bound of 1e-7 on the residuals the iterations stopped before
convergence for responses in small units: multiplying y by 1e-4 changed the fit.
---
 robpy/regression/mm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/robpy/regression/mm.py b/robpy/regression/mm.py
index 9ff081d..a1aab9d 100644
--- a/robpy/regression/mm.py
+++ b/robpy/regression/mm.py
@@ -32,8 +32,8 @@ class MMRegression(RobustRegression):
             max_iterations (int, optional):
                 Maximum number of iterations. Defaults to 500.
             epsilon (float, optional):
-                If the absolute difference between all the new and old residuals in an iteration
-                is below epsilon, we stop the computation. Defautls to 1e-7.
+                If the absolute difference between all the new and old scaled residuals in an
+                iteration is below epsilon, we stop the computation. Defautls to 1e-7.
 
         References:
             - Yohai, V. J. (1987). High breakdown-point and high efficiency robust estimates for
@@ -62,7 +62,7 @@ class MMRegression(RobustRegression):
             self.model = LinearRegression().fit(X, y, sample_weight=weights)
             new_residuals = y - self.model.predict(X).reshape(y.shape)
             self.n_iter = i + 1
-            if np.max(np.abs(new_residuals - residuals)) < self.epsilon:
+            if np.max(np.abs(new_residuals - residuals)) < self.epsilon * self._scale:
                 break
         return self
 
-- 
2.43.0


From 1dbe5c8ea999640a43b43c6f3486871884d8b632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:23 +0000
Subject: [PATCH 52/53] fix: DDC cell map accepts vmax_clip below 2.5

The colour anchors at -2.5 and 2.5 lay outside the colour range, so that
cellmap(X, vmax_clip=2) raised a ValueError.
---
 robpy/outliers/ddc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/robpy/outliers/ddc.py b/robpy/outliers/ddc.py
index eb87e11..83d5277 100644
--- a/robpy/outliers/ddc.py
+++ b/robpy/outliers/ddc.py
@@ -16,11 +16,12 @@ from robpy.univariate.base import RobustScale
 
 def get_custom_cmap(vmax_clip: float, neutral_color: str = "#f7f286") -> matplotlib.colors.Colormap:
     norm = matplotlib.colors.Normalize(-vmax_clip, vmax_clip)
+    neutral = min(2.5, vmax_clip)
     colors = [
         [norm(-vmax_clip), "#4652a3"],
-        [norm(-(vmax_clip + 2.5) / 2), "#8d6d8c"],
-        [norm(-2.5), neutral_color],
-        [norm(2.5), neutral_color],
+        [norm(-(vmax_clip + neutral) / 2), "#8d6d8c"],
+        [norm(-neutral), neutral_color],
+        [norm(neutral), neutral_color],
         [norm(vmax_clip), "#ec2123"],
     ]
     return matplotlib.colors.LinearSegmentedColormap.from_list("", colors)
-- 
2.43.0


From eed8791c8bb9845723388cde61a097169c70fb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:24 +0000
Subject: [PATCH 53/53] fix: Qn terminates when rounding breaks ties of the
 pairwise differences

---
 robpy/univariate/qn.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/robpy/univariate/qn.py b/robpy/univariate/qn.py
index 949f7a5..a8d41e6 100644
--- a/robpy/univariate/qn.py
+++ b/robpy/univariate/qn.py
@@ -60,8 +60,8 @@ class Qn(RobustScale):
             jhelp = (left + weight // 2).astype(int)
             work = y - y[n - jhelp]
             trial = weighted_median(work, weight)
-            P = np.searchsorted(-np.flip(y), trial - y, "left", np.arange(n))
-            Q = np.searchsorted(-np.flip(y), trial - y, "right", np.arange(n)) + 1
+            P = _count_differences(y, trial, "left")
+            Q = _count_differences(y, trial, "right") + 1
             if knew <= np.sum(P):
                 right = P
                 nR = np.sum(P)
@@ -91,6 +91,30 @@ class Qn(RobustScale):
         self.location_ = self.location_func(X)
 
 
+def _count_differences(y: np.ndarray, trial: float, side: str) -> np.ndarray:
+    """
+    For every y[i], counts the differences y[i] - y[j] below (side="left") or up to (side="right")
+    the trial value.
+
+    Args:
+        y (np.ndarray): sorted data.
+        trial (float): value the differences are compared with.
+        side (str): "left" or "right".
+    """
+    n = len(y)
+    y_flipped = np.flip(y)
+    below = np.less if side == "left" else np.less_equal
+    counts = np.searchsorted(-y_flipped, trial - y, side)
+    while True:
+        # trial - y is rounded: correct the counts until they agree with the differences themselves
+        # (otherwise the search for the order statistic may never end)
+        up = (counts < n) & below(y - y_flipped[np.minimum(counts, n - 1)], trial)
+        down = (counts > 0) & ~below(y - y_flipped[np.maximum(counts - 1, 0)], trial)
+        if not (np.any(up) or np.any(down)):
+            return counts
+        counts = counts + up - down
+
+
 def _get_small_sample_dn(n: int):
     """
     Calculates the correction factor for the Qn estimator at small samples.
-- 
2.43.0

