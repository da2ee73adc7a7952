From 923a5b52404ae664a20842f02e4d8c1c9b9fd556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 01/81] fix: apply both value bounds when fix_lb and fix_ub are
 given

---
 optbinning/binning/preprocessing.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index fc299dc..20e3207 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -249,12 +249,11 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
             sw_clean = sw_clean[~mask_outlier]
 
         if fix_lb is not None or fix_ub is not None:
+            mask = np.ones(len(x_clean), dtype=bool)
             if fix_lb is not None:
-                mask = x_clean >= fix_lb
-            elif fix_ub is not None:
-                mask = x_clean <= fix_ub
-            else:
-                mask = (x_clean >= fix_lb) & (x_clean <= fix_ub)
+                mask &= x_clean >= fix_lb
+            if fix_ub is not None:
+                mask &= x_clean <= fix_ub
 
             x_clean = x_clean[mask]
             y_clean = y_clean[mask]
-- 
2.43.0


From f752f530080e514cfd7a409222faa82f1dabd104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 02/81] fix: do not multiply the caller's sample weights in
 place

---
 optbinning/binning/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 20e3207..739b90c 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -183,7 +183,7 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         le = LabelEncoder()
         class_weight_ = compute_class_weight(
             class_weight=class_weight, classes=classes, y=y)
-        sample_weight *= class_weight_[le.fit_transform(y)]
+        sample_weight = sample_weight * class_weight_[le.fit_transform(y)]
 
     if np.issubdtype(x.dtype, np.number) and np.issubdtype(y.dtype, np.number):
         missing_mask = np.isnan(x) | np.isnan(y)
-- 
2.43.0


From 5ad52aaf3af85bde7277952c3b88e2f7bec2898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 03/81] fix: count a record that is both missing and special
 only once

---
 optbinning/binning/preprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/preprocessing.py b/optbinning/binning/preprocessing.py
index 739b90c..af954ec 100644
--- a/optbinning/binning/preprocessing.py
+++ b/optbinning/binning/preprocessing.py
@@ -213,8 +213,8 @@ def split_data(dtype, x, y, special_codes=None, cat_cutoff=None,
         sw_missing = sample_weight[missing_mask]
         sw_special = []
     else:
-        special_mask = pd.Series(x).isin(_special_codes).values
-
+        special_mask = (pd.Series(x).isin(_special_codes).values &
+                        ~missing_mask)
         clean_mask = ~missing_mask & ~special_mask
 
         x_clean = x[clean_mask]
-- 
2.43.0


From 76dc43e3fd10f11a3aea89135bc797333b8f2d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 04/81] fix: unknown category of integer type does not truncate
 transformed metric

---
 optbinning/binning/transformations.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 5c35d7d..c0db041 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -179,11 +179,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
                      n_special, cat_unknown):
 
     if dtype == "numerical":
-        if metric == "bins":
-            x_clean_transform = np.full(x_clean.shape, cat_unknown,
-                                        dtype=object)
-        else:
-            x_clean_transform = np.full(x_clean.shape, cat_unknown)
+        x_clean_transform = np.zeros(x_clean.shape, dtype=x_transform.dtype)
 
         for i in range(n_bins):
             mask = (indices == i)
@@ -302,7 +298,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
         else:
             metric_value = event_rate
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
@@ -438,7 +434,7 @@ def transform_continuous_target(splits, dtype, x, n_records, sums,
         if cat_unknown is None:
             cat_unknown = sums.sum() / n_records.sum()
 
-        x_transform = np.full(x.shape, cat_unknown)
+        x_transform = np.full(x.shape, cat_unknown, dtype=float)
     else:
         # Assign corresponding indices or bin intervals
         metric_value, x_transform = _transform_metric_indices_bins(
-- 
2.43.0


From b51fdf199d9f3557b6ea58b0c286d408f5f222af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 05/81] fix: transform with special codes given as an array

---
 optbinning/binning/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index c0db041..0c6a94f 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -192,7 +192,7 @@ def _apply_transform(x, dtype, special_codes, metric, metric_special,
             mask = x_p.isin(bins[i])
             x_transform[mask] = metric_value[i]
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From dffbbdef0912937c53f45b3f760e90ac834796ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 06/81] fix: default metric of unknown categories uses
 consistent totals

---
 optbinning/binning/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/transformations.py b/optbinning/binning/transformations.py
index 0c6a94f..6ca333b 100644
--- a/optbinning/binning/transformations.py
+++ b/optbinning/binning/transformations.py
@@ -285,7 +285,7 @@ def transform_binary_target(splits, dtype, x, n_nonevent, n_event,
 
         # Assign unknown category value
         if cat_unknown is None:
-            mean_event_rate = t_n_event / n_records.sum()
+            mean_event_rate = t_n_event / (t_n_event + t_n_nonevent)
             if metric == "woe":
                 cat_unknown = transform_event_rate_to_woe(
                     mean_event_rate, t_n_nonevent, t_n_event)
-- 
2.43.0


From 3485253936e8a892b0d7a65b533483b7df38690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 07/81] fix: fitting keeps user_splits options and forgets the
 previous fit

---
 optbinning/binning/binning.py            | 38 ++++++++++++++++------
 optbinning/binning/continuous_binning.py | 40 +++++++++++++++++++-----
 optbinning/binning/multiclass_binning.py | 33 +++++++++++++------
 3 files changed, 84 insertions(+), 27 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index e2c1899..fbccdaf 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -513,6 +513,8 @@ class OptimalBinning(BaseOptimalBinning):
 
         # info
         self._binning_table = None
+        self._user_splits_idx = None
+        self._user_splits_fixed = None
         self._n_prebins = None
         self._n_refinements = 0
         self._n_samples = None
@@ -697,6 +699,17 @@ class OptimalBinning(BaseOptimalBinning):
                                   self._time_postprocessing, self._n_prebins,
                                   self._n_refinements, dict_user_options)
 
+    def _reset(self):
+        self._flag_min_n_event_nonevent = False
+        self._n_nonevent_cat_others = None
+        self._n_event_cat_others = None
+        self._user_splits_idx = None
+        self._user_splits_fixed = None
+        self._n_refinements = 0
+        self._optimizer = None
+        self._time_solver = None
+        self._time_optimizer = None
+
     def _fit(self, x, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
@@ -706,6 +719,9 @@ class OptimalBinning(BaseOptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Remove information from previous fit
+        self._reset()
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -798,7 +814,8 @@ class OptimalBinning(BaseOptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits_idx = sorted_idx
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -995,7 +1012,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy, self.gamma,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
         elif self.solver == "mip":
             optimizer = BinningMIP(monotonic, self.min_n_bins, self.max_n_bins,
                                    min_bin_size, max_bin_size,
@@ -1003,7 +1020,7 @@ class OptimalBinning(BaseOptimalBinning):
                                    min_bin_n_nonevent, self.max_bin_n_nonevent,
                                    self.min_event_rate_diff, self.max_pvalue,
                                    self.max_pvalue_policy, self.gamma,
-                                   self.user_splits_fixed, self.mip_solver,
+                                   self._user_splits_fixed, self.mip_solver,
                                    self.time_limit)
         elif self.solver == "ls":
             optimizer = BinningLS(monotonic, self.min_n_bins, self.max_n_bins,
@@ -1012,7 +1029,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   min_bin_n_nonevent, self.max_bin_n_nonevent,
                                   self.min_event_rate_diff, self.max_pvalue,
                                   self.max_pvalue_policy,
-                                  self.user_splits_fixed, self.time_limit)
+                                  self._user_splits_fixed, self.time_limit)
 
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -1108,9 +1125,9 @@ class OptimalBinning(BaseOptimalBinning):
                     mask_splits = np.concatenate([
                         mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-                if self.user_splits_fixed is not None:
-                    user_splits_fixed = np.asarray(self.user_splits_fixed)
-                    user_splits = np.asarray(self.user_splits)
+                if self._user_splits_fixed is not None:
+                    user_splits_idx = self._user_splits_idx
+                    user_splits_fixed = self._user_splits_fixed
                     fixed_remove = user_splits_fixed & mask_splits
 
                     if any(fixed_remove):
@@ -1118,11 +1135,12 @@ class OptimalBinning(BaseOptimalBinning):
                             "Fixed user_splits {} are removed "
                             "because produce pure prebins. Provide "
                             "different splits to be fixed."
-                            .format(user_splits[fixed_remove]))
+                            .format([self.user_splits[i] for i in
+                                    user_splits_idx[fixed_remove]]))
 
                     # Update boolean array of fixed user splits.
-                    self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                    self.user_splits = user_splits[~mask_splits]
+                    self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                    self._user_splits_idx = user_splits_idx[~mask_splits]
 
                 splits = splits_prebinning[~mask_splits]
 
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 0b6d3f3..bd14c67 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -397,6 +397,8 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         # info
         self._binning_table = None
+        self._user_splits_idx = None
+        self._user_splits_fixed = None
         self._n_prebins = None
         self._n_refinements = 0
         self._n_samples = None
@@ -545,6 +547,23 @@ class ContinuousOptimalBinning(OptimalBinning):
                                            self.user_splits, show_digits,
                                            check_input)
 
+    def _reset(self):
+        self._std_missing = None
+        self._min_target_missing = None
+        self._max_target_missing = None
+        self._n_records_cat_others = None
+        self._sum_cat_others = None
+        self._std_cat_others = None
+        self._min_target_others = None
+        self._max_target_others = None
+        self._n_zeros_others = None
+        self._user_splits_idx = None
+        self._user_splits_fixed = None
+        self._n_refinements = 0
+        self._optimizer = None
+        self._time_solver = None
+        self._time_optimizer = None
+
     def _fit(self, x, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
@@ -554,6 +573,9 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Remove information from previous fit
+        self._reset()
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -647,7 +669,8 @@ class ContinuousOptimalBinning(OptimalBinning):
                         self.user_splits, x_clean, y_clean, sw_clean)
 
                 if self.user_splits_fixed is not None:
-                    self.user_splits_fixed = np.asarray(
+                    self._user_splits_idx = sorted_idx
+                    self._user_splits_fixed = np.asarray(
                         self.user_splits_fixed)[sorted_idx]
 
                 [splits, n_records, sums, ssums, stds, min_t, max_t,
@@ -815,7 +838,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                         max_bin_size, self.min_mean_diff,
                                         self.max_pvalue,
                                         self.max_pvalue_policy, self.gamma,
-                                        self.user_splits_fixed,
+                                        self._user_splits_fixed,
                                         self.time_limit)
 
         if self.verbose:
@@ -939,9 +962,9 @@ class ContinuousOptimalBinning(OptimalBinning):
                 mask_splits = np.concatenate([
                     mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_idx = self._user_splits_idx
+                user_splits_fixed = self._user_splits_fixed
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
@@ -949,11 +972,12 @@ class ContinuousOptimalBinning(OptimalBinning):
                         "Fixed user_splits {} are removed "
                         "because produce pure prebins. Provide "
                         "different splits to be fixed."
-                        .format(user_splits[fixed_remove]))
+                        .format([self.user_splits[i] for i in
+                                user_splits_idx[fixed_remove]]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits_idx = user_splits_idx[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
             if self.verbose:
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc80add..c58b51c 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -357,6 +357,8 @@ class MulticlassOptimalBinning(OptimalBinning):
         self._binning_table = None
         self._classes = None
         self._n_classes = None
+        self._user_splits_idx = None
+        self._user_splits_fixed = None
         self._n_prebins = None
         self._n_refinements = 0
         self._n_samples = None
@@ -490,6 +492,14 @@ class MulticlassOptimalBinning(OptimalBinning):
                                            metric_missing, show_digits,
                                            check_input)
 
+    def _reset(self):
+        self._user_splits_idx = None
+        self._user_splits_fixed = None
+        self._n_refinements = 0
+        self._optimizer = None
+        self._time_solver = None
+        self._time_optimizer = None
+
     def _fit(self, x, y, check_input):
         time_init = time.perf_counter()
 
@@ -499,6 +509,9 @@ class MulticlassOptimalBinning(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Remove information from previous fit
+        self._reset()
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
@@ -569,7 +582,8 @@ class MulticlassOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_idx = sorted_idx
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -747,7 +761,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                             self.min_event_rate_diff,
                                             self.max_pvalue,
                                             self.max_pvalue_policy,
-                                            self.user_splits_fixed,
+                                            self._user_splits_fixed,
                                             self.time_limit)
         else:
             optimizer = MulticlassBinningMIP(monotonic, self.min_n_bins,
@@ -757,7 +771,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                              self.max_pvalue,
                                              self.max_pvalue_policy,
                                              self.mip_solver,
-                                             self.user_splits_fixed,
+                                             self._user_splits_fixed,
                                              self.time_limit)
         if self.verbose:
             logger.info("Optimizer: build model...")
@@ -812,20 +826,21 @@ class MulticlassOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self.user_splits_fixed)
-                user_splits = np.asarray(self.user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_idx = self._user_splits_idx
+                user_splits_fixed = self._user_splits_fixed
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
                     raise ValueError("Fixed user_splits {} are removed "
                                      "because produce pure prebins. Provide "
                                      "different splits to be fixed."
-                                     .format(user_splits[fixed_remove]))
+                                     .format([self.user_splits[i] for i in
+                                             user_splits_idx[fixed_remove]]))
 
                 # Update boolean array of fixed user splits.
-                self.user_splits_fixed = user_splits_fixed[~mask_splits]
-                self.user_splits = user_splits[~mask_splits]
+                self._user_splits_fixed = user_splits_fixed[~mask_splits]
+                self._user_splits_idx = user_splits_idx[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
-- 
2.43.0


From 1ca8c49e5522ce3d124990900cca488ad416dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 08/81] fix: empty user_splits and data without splits after
 refinement

---
 optbinning/binning/binning.py            |  7 +++---
 optbinning/binning/continuous_binning.py | 14 +++++++-----
 optbinning/binning/multiclass_binning.py | 29 +++++++++++++-----------
 3 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index fbccdaf..dd2edac 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -793,9 +793,10 @@ class OptimalBinning(BaseOptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_nonevent = np.array([])
-                n_event = np.array([])
+                splits, n_nonevent, n_event = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index bd14c67..f52cdeb 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -647,10 +647,11 @@ class ContinuousOptimalBinning(OptimalBinning):
                             .format(n_splits))
 
             if not n_splits:
-                splits = self.user_splits
-                n_records = np.array([])
-                sums = np.array([])
-                stds = np.array([])
+                [splits, n_records, sums, ssums, stds, min_t, max_t,
+                 n_zeros] = self._prebinning_refinement(
+                    np.array([]), x_clean, y_clean, y_missing, x_special,
+                    y_special, y_others, sw_clean, sw_missing, sw_special,
+                    sw_others)
             else:
                 if self.dtype == "numerical":
                     user_splits = check_array(
@@ -891,7 +892,6 @@ class ContinuousOptimalBinning(OptimalBinning):
 
         if len(y_others):
             if len(sw_others):
-                print(y_others.dtype, sw_others.dtype)
                 y_others = y_others * sw_others
 
             self._n_records_cat_others = np.sum(sw_others)
@@ -920,7 +920,9 @@ class ContinuousOptimalBinning(OptimalBinning):
     def _compute_prebins(self, splits_prebinning, x, y, sw):
         n_splits = len(splits_prebinning)
         if not n_splits:
-            return splits_prebinning, np.array([]), np.array([])
+            return (splits_prebinning, np.array([]), np.array([]),
+                    np.array([]), np.array([]), np.array([]), np.array([]),
+                    np.array([]))
 
         if self.dtype == "categorical" and self.user_splits is not None:
             indices = np.digitize(x, splits_prebinning, right=True)
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index c58b51c..cc493fa 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -572,19 +572,22 @@ class MulticlassOptimalBinning(OptimalBinning):
                 logger.info("Pre-binning: user splits supplied: {}"
                             .format(n_splits))
 
-            user_splits = check_array(self.user_splits, ensure_2d=False,
-                                      dtype=None, force_all_finite=True)
-
-            if len(set(user_splits)) != len(user_splits):
-                raise ValueError("User splits are not unique.")
-
-            sorted_idx = np.argsort(user_splits)
-            user_splits = user_splits[sorted_idx]
-
-            if self.user_splits_fixed is not None:
-                self._user_splits_idx = sorted_idx
-                self._user_splits_fixed = np.asarray(
-                    self.user_splits_fixed)[sorted_idx]
+            if not n_splits:
+                user_splits = np.array([])
+            else:
+                user_splits = check_array(self.user_splits, ensure_2d=False,
+                                          dtype=None, force_all_finite=True)
+
+                if len(set(user_splits)) != len(user_splits):
+                    raise ValueError("User splits are not unique.")
+
+                sorted_idx = np.argsort(user_splits)
+                user_splits = user_splits[sorted_idx]
+
+                if self.user_splits_fixed is not None:
+                    self._user_splits_idx = sorted_idx
+                    self._user_splits_fixed = np.asarray(
+                        self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
                 user_splits, x_clean, y_clean, y_missing, x_special, y_special,
-- 
2.43.0


From 81e13b8c004c8861406d744b70c149f07c7fc5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 09/81] fix: keep the bin of a single categorical user split

---
 optbinning/binning/binning.py            | 6 +++++-
 optbinning/binning/continuous_binning.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index dd2edac..8624976 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -922,7 +922,11 @@ class OptimalBinning(BaseOptimalBinning):
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits), dtype=bool)
+            if self.dtype == "categorical" and self.user_splits is not None:
+                # The splits are the bins
+                self._solution = np.ones(len(splits), dtype=bool)
+            else:
+                self._solution = np.zeros(len(splits), dtype=bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index f52cdeb..fe0c78f 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -771,7 +771,11 @@ class ContinuousOptimalBinning(OptimalBinning):
         if len(n_records) <= 1:
             self._status = "OPTIMAL"
             self._splits_optimal = splits
-            self._solution = np.zeros(len(splits)).astype(bool)
+            if self.dtype == "categorical" and self.user_splits is not None:
+                # The splits are the bins
+                self._solution = np.ones(len(splits)).astype(bool)
+            else:
+                self._solution = np.zeros(len(splits)).astype(bool)
 
             if self.verbose:
                 logger.warning("Optimizer: {} bins after pre-binning."
-- 
2.43.0


From 23c792afa57b9c4609cdf0633ca6c01e7646b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 10/81] fix: multiclass bin size constraints use the records of
 a prebin

---
 optbinning/binning/multiclass_cp.py  | 2 +-
 optbinning/binning/multiclass_mip.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index cfb43a6..dd51217 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -47,7 +47,7 @@ class MulticlassBinningCP(BinningCP):
             self.min_event_rate_diff, M)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize model
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index 6f35539..a858d15 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -45,7 +45,7 @@ class MulticlassBinningMIP(BinningMIP):
             self.min_event_rate_diff)
 
         n = len(n_nonevent)
-        n_records = n_nonevent + n_event
+        n_records = n_nonevent[:, 0] + n_event[:, 0]
         n_classes = len(self.monotonic_trend)
 
         # Initialize solver
-- 
2.43.0


From b9f8f8db72f5bf2104d7f81dc3e5a8db3714d7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 11/81] fix: multiclass models add the heuristic, convex and
 concave trends

---
 optbinning/binning/multiclass_binning.py | 20 ++++++++++++++++++++
 optbinning/binning/multiclass_cp.py      | 12 ++++++++++--
 optbinning/binning/multiclass_mip.py     | 12 ++++++++++--
 3 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index cc493fa..8f537b1 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -717,6 +717,20 @@ class MulticlassOptimalBinning(OptimalBinning):
                                         self.monotonic_trend)
                          for i in range(len(self._classes))]
 
+            if self.monotonic_trend == "auto_heuristic":
+                for i, trend in enumerate(monotonic):
+                    if trend in ("peak", "valley"):
+                        if trend == "peak":
+                            trend = "peak_heuristic"
+                        else:
+                            trend = "valley_heuristic"
+
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, trend)
+                        monotonic[i] = trend
+
             if self.verbose:
                 logger.info("Optimizer: classifier predicts {} "
                             "monotonic trends.".format(monotonic))
@@ -750,6 +764,12 @@ class MulticlassOptimalBinning(OptimalBinning):
                         logger.info("Optimizer: classifier predicts {} "
                                     "monotonic trend.".format(trend))
                 else:
+                    if m_trend in ("peak_heuristic", "valley_heuristic"):
+                        event_rate = n_event[:, i] / (n_nonevent[:, i] +
+                                                      n_event[:, i])
+                        trend_changes[i] = peak_valley_trend_change_heuristic(
+                            event_rate, m_trend)
+
                     monotonic.append(m_trend)
         elif self.monotonic_trend is None:
             monotonic = [None] * self._n_classes
diff --git a/optbinning/binning/multiclass_cp.py b/optbinning/binning/multiclass_cp.py
index dd51217..8045b33 100644
--- a/optbinning/binning/multiclass_cp.py
+++ b/optbinning/binning/multiclass_cp.py
@@ -84,6 +84,14 @@ class MulticlassBinningCP(BinningCP):
             if self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(model, n, D[c], x, M)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(
+                    model, n, D[c], x, M)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(
+                    model, n, D[c], x, M)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     model.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -96,11 +104,11 @@ class MulticlassBinningCP(BinningCP):
                     self.add_constraint_monotonic_valley(
                         model, n, D[c], x, c, y, M)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     model, n, D[c], x, trend_changes[c], M)
 
diff --git a/optbinning/binning/multiclass_mip.py b/optbinning/binning/multiclass_mip.py
index a858d15..693c3ab 100644
--- a/optbinning/binning/multiclass_mip.py
+++ b/optbinning/binning/multiclass_mip.py
@@ -87,6 +87,14 @@ class MulticlassBinningMIP(BinningMIP):
             elif self.monotonic_trend[c] == "descending":
                 self.add_constraint_monotonic_descending(solver, n, D[c], x)
 
+            elif self.monotonic_trend[c] == "concave":
+                self.add_constraint_monotonic_concave(
+                    solver, n, D[c], x)
+
+            elif self.monotonic_trend[c] == "convex":
+                self.add_constraint_monotonic_convex(
+                    solver, n, D[c], x)
+
             elif self.monotonic_trend[c] in ("peak", "valley"):
                 for i in range(n):
                     solver.Add(t[c] >= i - n * (1 - y[c, i]))
@@ -99,11 +107,11 @@ class MulticlassBinningMIP(BinningMIP):
                     self.add_constraint_monotonic_valley(
                         solver, n, D[c], x, c, y)
 
-            elif self.monotonic_trend == "peak_heuristic":
+            elif self.monotonic_trend[c] == "peak_heuristic":
                 self.add_constraint_monotonic_peak_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-            elif self.monotonic_trend == "valley_heuristic":
+            elif self.monotonic_trend[c] == "valley_heuristic":
                 self.add_constraint_monotonic_valley_heuristic(
                     solver, n, D[c], x, trend_changes[c])
 
-- 
2.43.0


From 01b4a5843e3c5eb2d4cadc62f2fdf09b341e12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 12/81] fix: fractional time limits with MIP solvers

---
 optbinning/binning/mip.py                        | 2 +-
 optbinning/binning/multidimensional/mip_2d.py    | 2 +-
 optbinning/scorecard/counterfactual/mip.py       | 2 +-
 optbinning/scorecard/counterfactual/multi_mip.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/mip.py b/optbinning/binning/mip.py
index 3826cbd..fc68c31 100644
--- a/optbinning/binning/mip.py
+++ b/optbinning/binning/mip.py
@@ -178,7 +178,7 @@ class BinningMIP:
         self._x = x
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         status = self.solver_.Solve()
 
         if status in (pywraplp.Solver.OPTIMAL, pywraplp.Solver.FEASIBLE):
diff --git a/optbinning/binning/multidimensional/mip_2d.py b/optbinning/binning/multidimensional/mip_2d.py
index 2c94c7a..2296e80 100644
--- a/optbinning/binning/multidimensional/mip_2d.py
+++ b/optbinning/binning/multidimensional/mip_2d.py
@@ -85,7 +85,7 @@ class Binning2DMIP:
 
     def solve(self):
         # Solve
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index f9f84e3..e586776 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -188,7 +188,7 @@ class CFMIP:
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index d42d8e5..c9b9f18 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -227,7 +227,7 @@ class MCFMIP(CFMIP):
                     pre_objs[name] = self._objectives[name].solution_value()
 
     def solve(self):
-        self.solver_.SetTimeLimit(self.time_limit * 1000)
+        self.solver_.SetTimeLimit(int(self.time_limit * 1000))
         self.solver_.SetNumThreads(self.n_jobs)
         status = self.solver_.Solve()
 
-- 
2.43.0


From e8719eb86c1a81a9b31461720dd745550ce28b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 13/81] fix: np.bool is not available in numpy 1.24 to 1.26

---
 optbinning/binning/multidimensional/cp_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/cp_2d.py b/optbinning/binning/multidimensional/cp_2d.py
index 8918288..ce14358 100644
--- a/optbinning/binning/multidimensional/cp_2d.py
+++ b/optbinning/binning/multidimensional/cp_2d.py
@@ -100,7 +100,7 @@ class Binning2DCP:
             solution = np.array([self.solver_.BooleanValue(self._x[i])
                                  for i in range(self._n_rectangles)])
         else:
-            solution = np.zeros(self._n_rectangles).astype(np.bool)
+            solution = np.zeros(self._n_rectangles).astype(bool)
 
         return status_name, solution
 
-- 
2.43.0


From 16746506740f1777d2140212eac4f6ed7731d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 14/81] fix: labels of number of variables and constraints of
 MIP solvers

---
 optbinning/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/information.py b/optbinning/information.py
index e37b83b..7ada99d 100644
--- a/optbinning/information.py
+++ b/optbinning/information.py
@@ -104,8 +104,8 @@ def print_solver_statistics(solver_type, d_solver):
         solver_stats = (
             "  Solver statistics\n"
             "    Type                          {:>10}\n"
-            "    Number of variables           {:>10}\n"
             "    Number of constraints         {:>10}\n"
+            "    Number of variables           {:>10}\n"
             "    Objective value               {:>10.4f}\n"
             "    Best objective bound          {:>10.4f}\n"
             ).format(solver_type, *d_solver.values())
-- 
2.43.0


From 5aa5075aac33608e2ca9b9cd3f8c5d4612de4a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 15/81] fix: gamma regularization of continuous binning
 constrains pmin and pmax

---
 optbinning/binning/continuous_cp.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 71f6098..4511569 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -114,6 +114,15 @@ class ContinuousBinningCP(BinningCP):
             self.add_constraint_monotonic_valley_heuristic(
                 model, n, U, x, trend_change, M)
 
+        # Constraint: reduction of dominating bins
+        if self.gamma:
+            for i in range(n):
+                bin_size = sum([n_records[j] * x[i, j] for j in range(i + 1)])
+
+                model.Add(pmin <= total_records * (1 - x[i, i]) + bin_size)
+                model.Add(pmax >= bin_size)
+            model.Add(pmin <= pmax)
+
         # Constraint: max-pvalue
         self.add_constraint_violation(model, x, pvalue_violation_indices)
 
-- 
2.43.0


From eba550475207ccbd68a5ff169b5525dd597fa9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 16/81] fix: number of values returned by model_data in ls
 solver

---
 optbinning/binning/ls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/ls.py b/optbinning/binning/ls.py
index 245ce71..d2c7ae1 100644
--- a/optbinning/binning/ls.py
+++ b/optbinning/binning/ls.py
@@ -49,7 +49,7 @@ class BinningLS:
     def build_model(self, divergence, n_nonevent, n_event, trend_change):
         # Parameters
         M = int(1e6)
-        D, V, NE, E, _, _ = model_data(
+        D, V, NE, E, _ = model_data(
             divergence, n_nonevent, n_event, self.max_pvalue,
             self.max_pvalue_policy, self.min_event_rate_diff, M, True)
 
-- 
2.43.0


From 0b470657066ea7341433c7decf426354c5fe50dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 17/81] fix: piecewise empirical special and missing event rate
 used non-events

---
 optbinning/binning/piecewise/transformations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 9ead4b1..2000fae 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -59,8 +59,8 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
 
 def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
-                            n_event_special, n_nonevent_special,
-                            n_event_missing, n_nonevent_missing,
+                            n_nonevent_special, n_event_special,
+                            n_nonevent_missing, n_event_missing,
                             special_codes, metric, metric_special,
                             metric_missing, check_input=False):
 
-- 
2.43.0


From b66a6da9339b46cc0bfb3657bcfd8c31880982b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 18/81] fix: piecewise transform with special codes given as an
 array

---
 optbinning/binning/piecewise/transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index 2000fae..cfdaa8f 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -34,7 +34,7 @@ def _apply_transform(x, c, lb, ub, special_codes, metric_special,
 
     x_transform[clean_mask] = x_clean_transform
 
-    if special_codes:
+    if special_codes is not None:
         if isinstance(special_codes, dict):
             xt = pd.Series(x)
             for i, (k, s) in enumerate(special_codes.items()):
-- 
2.43.0


From 4471a8d01a4ae166b66dc9d78105a1454ff1dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 19/81] fix: piecewise continuous fit_transform passes bounds
 to fit

---
 optbinning/binning/piecewise/continuous_binning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index b80500a..52b6406 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -242,7 +242,7 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         x_new : numpy array, shape = (n_samples,)
             Transformed array.
         """
-        return self.fit(x, y, check_input).transform(
+        return self.fit(x, y, lb, ub, check_input).transform(
             x, metric_special, metric_missing, lb, ub, check_input)
 
     def transform(self, x, metric_special=0, metric_missing=0,
-- 
2.43.0


From 82b8fd6b37e698d17deca54f929cdd835a01086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 20/81] fix: piecewise continuous table analysis marks the
 table as analyzed

---
 optbinning/binning/piecewise/binning_statistics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 3092256..a140db9 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -688,3 +688,5 @@ class PWContinuousBinningTable:
 
         if print_output:
             print(report)
+
+        self._is_analyzed = True
-- 
2.43.0


From 23371f94500c8a548c4c4c5214837cf9cab353a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 21/81] fix: tables with several special code groups

---
 optbinning/binning/binning_statistics.py       | 18 ++++++++++++------
 .../binning/piecewise/binning_statistics.py    |  4 ++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 5867b6b..3893645 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -801,7 +801,8 @@ class BinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-(self._n_specials + 1)] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
@@ -972,7 +973,8 @@ class BinningTable:
                                                     self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._event_rate[:-2])
+        type_mono = type_of_monotonic_trend(
+            self._event_rate[:-(self._n_specials + 1)])
 
         report = (
             "---------------------------------------------\n"
@@ -1367,7 +1369,8 @@ class MulticlassBinningTable:
         if show_bin_labels:
             bin_str = self._bin_str
             if not add_special:
-                bin_str = bin_str[:-2] + [bin_str[-1]]
+                bin_str = (bin_str[:-(self._n_specials + 1)] +
+                           [bin_str[-1]])
 
             if not add_missing:
                 bin_str = bin_str[:-1]
@@ -1457,7 +1460,8 @@ class MulticlassBinningTable:
         monotonic_string = ""
 
         for i in range(len(self.classes)):
-            type_mono = type_of_monotonic_trend(self._event_rate[:-2, i])
+            type_mono = type_of_monotonic_trend(
+                self._event_rate[:-(self._n_specials + 1), i])
             monotonic_string += mono_string.format(i, type_mono)
 
         report = (
@@ -1881,7 +1885,8 @@ class ContinuousBinningTable:
                     bin_str = self._bin_str
 
                 if not add_special:
-                    bin_str = bin_str[:-2] + [bin_str[-1]]
+                    bin_str = (bin_str[:-(self._n_specials + 1)] +
+                               [bin_str[-1]])
 
                 if not add_missing:
                     bin_str = bin_str[:-1]
@@ -2021,7 +2026,8 @@ class ContinuousBinningTable:
             rwoe, p_values, self._hhi_norm)
 
         # Monotonic trend
-        type_mono = type_of_monotonic_trend(self._mean[:-2])
+        type_mono = type_of_monotonic_trend(
+            self._mean[:-(self._n_specials + 1)])
 
         report = (
             "-------------------------------------------------\n"
diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index a140db9..9112cf7 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -316,7 +316,7 @@ class PWBinningTable(BinningTable):
 
         # Significance tests
         n_bins = len(self._n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_nev = self.n_nonevent[:n_metric]
         n_ev = self.n_event[:n_metric]
@@ -628,7 +628,7 @@ class PWContinuousBinningTable:
 
         # Significance tests
         n_bins = len(self.n_records)
-        n_metric = n_bins - 2
+        n_metric = n_bins - 1 - self._n_specials
 
         n_records = self.n_records[:n_metric]
         mean = self._mean[:n_metric]
-- 
2.43.0


From 618d0cf2be62f61788c717d8122f4c8f67c5d90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 22/81] fix: continuous target with a dict of special codes
 without records

---
 optbinning/binning/binning_statistics.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 3893645..64e39a4 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -170,15 +170,9 @@ def target_info_special_continuous(special_codes, x, y, sw):
         n_records_special = []
         sum_special = []
         n_zeros_special = []
-
-        if len(y):
-            std_special = []
-            min_target_special = []
-            max_target_special = []
-        else:
-            std_special = None
-            min_target_special = None
-            max_target_special = None
+        std_special = []
+        min_target_special = []
+        max_target_special = []
 
         xt = pd.Series(x)
         for s in special_codes.values():
-- 
2.43.0


From 40ceee21dd8a016b5e1d9f2c8cf12ddd4d39f693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 23/81] fix: piecewise binning checks max_n_prebins

---
 optbinning/binning/piecewise/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/base.py b/optbinning/binning/piecewise/base.py
index 7302d6f..cc7c734 100644
--- a/optbinning/binning/piecewise/base.py
+++ b/optbinning/binning/piecewise/base.py
@@ -72,6 +72,10 @@ def _check_parameters(name, estimator, objective, degree, continuous,
         raise ValueError('Invalid value for prebinning_method. Allowed string '
                          'values are "cart", "quantile" and "uniform".')
 
+    if not isinstance(max_n_prebins, numbers.Integral) or max_n_prebins <= 1:
+        raise ValueError("max_prebins must be an integer greater than 1; "
+                         "got {}.".format(max_n_prebins))
+
     if not 0. < min_prebin_size <= 0.5:
         raise ValueError("min_prebin_size must be in (0, 0.5]; got {}."
                          .format(min_prebin_size))
-- 
2.43.0


From 4d7bba6ec906ec6d4b39c051227c88af4ec59c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 24/81] fix: piecewise binning does not rewrite the estimator
 option

---
 optbinning/binning/piecewise/binning.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 73eb33b..65d5a22 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -357,8 +357,10 @@ class OptimalPWBinning(BasePWBinning):
         # Fit estimator and compute event_rate = P[Y=1, X=x]
         time_estimator = time.perf_counter()
 
-        if self.estimator is None:
-            self.estimator = LogisticRegression()
+        estimator = self.estimator
+
+        if estimator is None:
+            estimator = LogisticRegression()
 
             if self.verbose:
                 logger.info("Pre-binning: set logistic regression as an "
@@ -367,8 +369,8 @@ class OptimalPWBinning(BasePWBinning):
         if self.verbose:
             logger.info("Pre-binning: estimator fitting started.")
 
-        self.estimator.fit(x_clean.reshape(-1, 1), y_clean)
-        event_rate = self.estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
+        estimator.fit(x_clean.reshape(-1, 1), y_clean)
+        event_rate = estimator.predict_proba(x_clean.reshape(-1, 1))[:, 1]
 
         self._time_estimator = time.perf_counter() - time_estimator
 
-- 
2.43.0


From 73063cdb9a19fb3a90614e63b462ad95df236864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 25/81] fix: piecewise refit without missing values forgets
 missing statistics

---
 optbinning/binning/piecewise/continuous_binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index 52b6406..f9d8f6b 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -362,6 +362,10 @@ class ContinuousOptimalPWBinning(BasePWBinning):
             self._std_missing = np.std(y_missing)
             self._min_target_missing = np.min(y_missing)
             self._max_target_missing = np.max(y_missing)
+        else:
+            self._std_missing = None
+            self._min_target_missing = None
+            self._max_target_missing = None
 
         bt = self._optb.binning_table.build(add_totals=False)
         n_records = bt["Count"].values[:-2]
-- 
2.43.0


From 20e7034cb4e75a7548c15bbd7fe2fb7406379b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:56 +0000
Subject: [PATCH 26/81] fix: number of non-events in KS score

---
 optbinning/metrics/classification.py | 2 +-
 optbinning/scorecard/plots.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index ab8cd80..9948ebf 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -54,7 +54,7 @@ def ks(y_true, y_pred_proba):
     yy = y_true[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index 1873ac5..e72df9e 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -221,7 +221,7 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     pp = y_pred[idx]
 
     cum_event = np.cumsum(yy)
-    cum_population = np.arange(0, n_samples)
+    cum_population = np.arange(1, n_samples + 1)
     cum_nonevent = cum_population - cum_event
 
     p_event = cum_event / n_event
-- 
2.43.0


From 87246d780c139b33058a6d5dc1cafd06ea29d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 27/81] fix: binning process forwards max_bin_size

---
 optbinning/binning/binning_process.py         | 38 +++++++++++--------
 .../distributed/binning_process_sketch.py     |  1 +
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 4c53022..a360070 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -74,8 +74,8 @@ def _read_column(input_path, extension, column, **kwargs):
 
 def _fit_variable(x, y, name, target_dtype, categorical_variables,
                   binning_fit_params, max_n_prebins, min_prebin_size,
-                  min_n_bins, max_n_bins, min_bin_size, max_pvalue,
-                  max_pvalue_policy, special_codes, split_digits,
+                  min_n_bins, max_n_bins, min_bin_size, max_bin_size,
+                  max_pvalue, max_pvalue_policy, special_codes, split_digits,
                   sample_weight=None):
     params = {}
     dtype = _check_variable_dtype(x)
@@ -92,7 +92,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -101,7 +102,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, dtype=dtype, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -113,7 +115,8 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
             name=name, max_n_prebins=max_n_prebins,
             min_prebin_size=min_prebin_size,
             min_n_bins=min_n_bins, max_n_bins=max_n_bins,
-            min_bin_size=min_bin_size, max_pvalue=max_pvalue,
+            min_bin_size=min_bin_size, max_bin_size=max_bin_size,
+            max_pvalue=max_pvalue,
             max_pvalue_policy=max_pvalue_policy,
             special_codes=special_codes,
             split_digits=split_digits)
@@ -130,7 +133,7 @@ def _fit_variable(x, y, name, target_dtype, categorical_variables,
 
 def _fit_block(X, y, names, target_dtype, categorical_variables,
                binning_fit_params, max_n_prebins, min_prebin_size,
-               min_n_bins, max_n_bins, min_bin_size, max_pvalue,
+               min_n_bins, max_n_bins, min_bin_size, max_bin_size, max_pvalue,
                max_pvalue_policy, special_codes, split_digits,
                sample_weight=None):
 
@@ -142,14 +145,14 @@ def _fit_block(X, y, names, target_dtype, categorical_variables,
             dtype, optb = _fit_variable(
                 X[:, i], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
         else:
             dtype, optb = _fit_variable(
                 X[name], y, name, target_dtype, categorical_variables,
                 binning_fit_params, max_n_prebins, min_prebin_size, min_n_bins,
-                max_n_bins, min_bin_size, max_pvalue, max_pvalue_policy,
-                special_codes, split_digits, sample_weight)
+                max_n_bins, min_bin_size, max_bin_size, max_pvalue,
+                max_pvalue_policy, special_codes, split_digits, sample_weight)
 
         variable_dtypes[name] = dtype
         binned_variables[name] = optb
@@ -1121,7 +1124,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                 else:
                     dtype, optb = _fit_variable(
@@ -1129,7 +1133,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.categorical_variables, self.binning_fit_params,
                         self.max_n_prebins, self.min_prebin_size,
                         self.min_n_bins, self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
 
                 self._variable_dtypes[name] = dtype
@@ -1147,7 +1152,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
@@ -1159,7 +1165,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         self.binning_fit_params, self.max_n_prebins,
                         self.min_prebin_size, self.min_n_bins,
                         self.max_n_bins, self.min_bin_size,
-                        self.max_pvalue, self.max_pvalue_policy,
+                        self.max_bin_size, self.max_pvalue,
+                        self.max_pvalue_policy,
                         self.special_codes, self.split_digits, sample_weight)
                     for id_block in id_blocks)
 
@@ -1241,7 +1248,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 x, y, name, self._target_dtype, self.categorical_variables,
                 self.binning_fit_params, self.max_n_prebins,
                 self.min_prebin_size, self.min_n_bins, self.max_n_bins,
-                self.min_bin_size, self.max_pvalue, self.max_pvalue_policy,
+                self.min_bin_size, self.max_bin_size, self.max_pvalue,
+                self.max_pvalue_policy,
                 self.special_codes, self.split_digits)
 
             self._variable_dtypes[name] = dtype
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index c06e2c8..e3ab59f 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -325,6 +325,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
                         min_n_bins=self.min_n_bins,
                         max_n_bins=self.max_n_bins,
                         min_bin_size=self.min_bin_size,
+                        max_bin_size=self.max_bin_size,
                         max_pvalue=self.max_pvalue,
                         max_pvalue_policy=self.max_pvalue_policy,
                         special_codes=self.special_codes,
-- 
2.43.0


From 55a75049410748ff93e4f58bf3d664e7400854b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 28/81] fix: transform parameters of a variable do not apply to
 later variables

---
 optbinning/binning/binning_process.py         | 32 +++++++++++--------
 .../distributed/binning_process_sketch.py     | 10 +++---
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index a360070..e3090e7 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1434,15 +1434,17 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric = params.get("metric", metric)
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            metric_var = params.get("metric", metric)
+            metric_special_var = params.get(
+                "metric_special", metric_special)
+            metric_missing_var = params.get(
+                "metric_missing", metric_missing)
 
             tparams = {
                 "x": x,
-                "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric": metric_var,
+                "metric_special": metric_special_var,
+                "metric_missing": metric_missing_var,
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
@@ -1450,7 +1452,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             if isinstance(optb, _OPTBPW_TYPES):
                 tparams.pop("show_digits")
 
-            if metric is None:
+            if metric_var is None:
                 tparams.pop("metric")
 
             X_transform[:, i] = optb.transform(**tparams)
@@ -1532,22 +1534,24 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                 if self.binning_transform_params is not None:
                     params = self.binning_transform_params.get(name, {})
 
-                metric = params.get("metric", metric)
-                metric_missing = params.get("metric_missing", metric_missing)
-                metric_special = params.get("metric_special", metric_special)
+                metric_var = params.get("metric", metric)
+                metric_special_var = params.get(
+                    "metric_special", metric_special)
+                metric_missing_var = params.get(
+                    "metric_missing", metric_missing)
 
                 tparams = {
                     "x": chunk[name],
-                    "metric": metric,
-                    "metric_special": metric_special,
-                    "metric_missing": metric_missing,
+                    "metric": metric_var,
+                    "metric_special": metric_special_var,
+                    "metric_missing": metric_missing_var,
                     "show_digits": show_digits
                     }
 
                 if isinstance(optb, _OPTBPW_TYPES):
                     tparams.pop("show_digits")
 
-                if metric is None:
+                if metric_var is None:
                     tparams.pop("metric")
 
                 X_transform[:, i] = optb.transform(**tparams)
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index e3ab59f..aa3aaa6 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -564,14 +564,16 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             if self.binning_transform_params is not None:
                 params = self.binning_transform_params.get(name, {})
 
-            metric_missing = params.get("metric_missing", metric_missing)
-            metric_special = params.get("metric_special", metric_special)
+            metric_special_var = params.get(
+                "metric_special", metric_special)
+            metric_missing_var = params.get(
+                "metric_missing", metric_missing)
 
             tparams = {
                 "x": x,
                 "metric": metric,
-                "metric_special": metric_special,
-                "metric_missing": metric_missing,
+                "metric_special": metric_special_var,
+                "metric_missing": metric_missing_var,
                 "check_input": check_input,
                 "show_digits": show_digits
                 }
-- 
2.43.0


From 1aec2d542d298b0e6473240f636f3f5490c6daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 29/81] fix: binning process refit forgets the variables of the
 previous fit

---
 optbinning/binning/binning_process.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index e3090e7..722b2d8 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1053,6 +1053,12 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         else:
             return mask
 
+    def _reset(self):
+        self._binned_variables = {}
+        self._variable_dtypes = {}
+        self._variable_stats = {}
+        self._is_updated = False
+
     def _fit(self, X, y, sample_weight, check_input):
         time_init = time.perf_counter()
 
@@ -1062,6 +1068,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         # check X dtype
         if not isinstance(X, (pd.DataFrame, np.ndarray)):
             raise TypeError("X must be a pandas.DataFrame or numpy.ndarray.")
@@ -1201,6 +1209,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         # Input file extension
         extension = input_path.split(".")[1]
 
@@ -1281,6 +1291,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
 
         _check_parameters(**self.get_params())
 
+        self._reset()
+
         if not isinstance(dict_optb, dict):
             raise TypeError("dict_optb must be a dict.")
 
-- 
2.43.0


From 6cd3afb8dcf6ab1033021d14ae168e8a2f5af1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 30/81] fix: arguments of the selection strategy error message

---
 optbinning/binning/binning_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 722b2d8..9292f92 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -187,7 +187,7 @@ def _check_selection_criteria(selection_criteria, target_dtype):
                 if value not in ("highest", "lowest"):
                     raise ValueError('strategy value for metric {} must be '
                                      '"highest" or "lowest"; got {}.'
-                                     .format(value, metric))
+                                     .format(metric, value))
             elif key == "top":
                 if isinstance(value, numbers.Integral):
                     if value < 1:
-- 
2.43.0


From ee00bf1b2a6bb675573455bc038e5acc3e9950c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 31/81] fix: extension of paths with several dots

---
 optbinning/binning/binning_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 9292f92..9b09cfd 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1212,7 +1212,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         self._reset()
 
         # Input file extension
-        extension = input_path.split(".")[1]
+        extension = input_path.split(".")[-1]
 
         # Check extension
         if extension not in ("csv", "parquet"):
@@ -1479,8 +1479,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
                         metric_special, metric_missing, show_digits, **kwargs):
 
         # check input_path and output_path extensions
-        input_extension = input_path.split(".")[1]
-        output_extension = output_path.split(".")[1]
+        input_extension = input_path.split(".")[-1]
+        output_extension = output_path.split(".")[-1]
 
         if input_extension != "csv" or output_extension != "csv":
             raise ValueError("input_path and output_path must be csv files.")
-- 
2.43.0


From 4ad35d680868bcb27cf1bfbe51a15871e7892f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:27 +0000
Subject: [PATCH 32/81] fix: fixed variables are validated by every fit method

---
 optbinning/binning/binning_process.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 9b09cfd..5e6cf4b 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -270,6 +270,11 @@ def _check_parameters(variable_names, max_n_prebins, min_prebin_size,
         if not isinstance(fixed_variables, (np.ndarray, list)):
             raise TypeError("fixed_variables must be a list or numpy.ndarray.")
 
+        for fv in fixed_variables:
+            if fv not in variable_names:
+                raise ValueError("Variable {} to be fixed is not a valid "
+                                 "variable name.".format(fv))
+
     if categorical_variables is not None:
         if not isinstance(categorical_variables, (np.ndarray, list)):
             raise TypeError("categorical_variables must be a list or "
@@ -1235,12 +1240,6 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             _check_selection_criteria(self.selection_criteria,
                                       self._target_dtype)
 
-        if self.fixed_variables is not None:
-            for fv in self.fixed_variables:
-                if fv not in self.variable_names:
-                    raise ValueError("Variable {} to be fixed is not a valid "
-                                     "variable name.".format(fv))
-
         self._n_samples = len(y)
         self._n_variables = len(self.variable_names)
 
-- 
2.43.0


From e48c20c0bdd79b0a1e25f78b7ff180ff830f2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 33/81] fix: selection criteria in binning process sketch

---
 optbinning/binning/binning_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 5e6cf4b..5d82fe1 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -397,8 +397,9 @@ class BaseBinningProcess:
                     self._support &= support
 
         # Fixed variables
-        if self.fixed_variables is not None:
-            for fv in self.fixed_variables:
+        fixed_variables = getattr(self, "fixed_variables", None)
+        if fixed_variables is not None:
+            for fv in fixed_variables:
                 idfv = list(self.variable_names).index(fv)
                 self._support[idfv] = True
 
-- 
2.43.0


From 1edec6947644e620a33c8c960a0ed839c9b4375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 34/81] fix: variable selection takes updated variables into
 account

---
 optbinning/binning/binning_process.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index 5d82fe1..f05f8be 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -910,6 +910,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             raise ValueError("print_level must be an integer >= 0; got {}."
                              .format(print_level))
 
+        self._update_selection()
+
         n_numerical = list(self._variable_dtypes.values()).count("numerical")
         n_categorical = self._n_variables - n_numerical
 
@@ -933,9 +935,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         """
         self._check_is_fitted()
 
-        if self._is_updated:
-            self._binning_selection_criteria()
-            self._is_updated = False
+        self._update_selection()
 
         df_summary = pd.DataFrame.from_dict(self._variable_stats).T
         df_summary.reset_index(inplace=True)
@@ -1051,6 +1051,8 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         if indices and names:
             raise ValueError("Only indices or names can be True.")
 
+        self._update_selection()
+
         mask = self._support
         if indices:
             return np.where(mask)[0]
@@ -1059,6 +1061,11 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
         else:
             return mask
 
+    def _update_selection(self):
+        if self._is_updated:
+            self._binning_selection_criteria()
+            self._is_updated = False
+
     def _reset(self):
         self._binned_variables = {}
         self._variable_dtypes = {}
-- 
2.43.0


From 1047b9a474ff0aa8402ab824c18679f53d4c232b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 35/81] fix: continuous piecewise binning in a binning process

---
 optbinning/binning/binning_process.py         |  5 ++--
 .../binning/piecewise/binning_statistics.py   | 29 +++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index f05f8be..b12601c 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -409,10 +409,11 @@ class BaseBinningProcess:
             optb.binning_table.build()
 
             n_bins = len(optb.splits)
-            if isinstance(optb, OptimalPWBinning) or optb.dtype == "numerical":
+            if (isinstance(optb, _OPTBPW_TYPES) or
+                    optb.dtype == "numerical"):
                 n_bins += 1
 
-            if isinstance(optb, OptimalPWBinning):
+            if isinstance(optb, _OPTBPW_TYPES):
                 dtype = "numerical"
             else:
                 dtype = optb.dtype
diff --git a/optbinning/binning/piecewise/binning_statistics.py b/optbinning/binning/piecewise/binning_statistics.py
index 9112cf7..2ffc25e 100644
--- a/optbinning/binning/piecewise/binning_statistics.py
+++ b/optbinning/binning/piecewise/binning_statistics.py
@@ -14,6 +14,7 @@ import pandas as pd
 from scipy import stats
 
 from ...binning.binning_statistics import _check_build_parameters
+from ...binning.binning_statistics import _check_is_analyzed
 from ...binning.binning_statistics import _check_is_built
 from ...binning.binning_statistics import bin_str_format
 from ...binning.binning_statistics import BinningTable
@@ -464,6 +465,7 @@ class PWContinuousBinningTable:
         self.d_metrics = d_metrics
 
         self._mean = None
+        self._woe = None
         self._hhi = None
         self._hhi_norm = None
         self._n_specials = None
@@ -496,6 +498,9 @@ class PWContinuousBinningTable:
         self._mean = np.zeros(len(self.n_records))
         self._mean[mask] = self.sums[mask] / self.n_records[mask]
 
+        # Compute the sum of absolute WoEs (continuous adaptation)
+        self._woe = np.absolute(self._mean - t_sum / t_n_records).sum()
+
         # Compute HHI
         self._hhi = hhi(p_records)
         self._hhi_norm = hhi(p_records, normalized=True)
@@ -690,3 +695,27 @@ class PWContinuousBinningTable:
             print(report)
 
         self._is_analyzed = True
+
+    @property
+    def woe(self):
+        """The sum of absolute WoEs.
+
+        Returns
+        -------
+        woe : float
+        """
+        _check_is_built(self)
+
+        return self._woe
+
+    @property
+    def quality_score(self):
+        """The quality score (QS).
+
+        Returns
+        -------
+        quality_score : float
+        """
+        _check_is_analyzed(self)
+
+        return self._quality_score
-- 
2.43.0


From 393cf4fe644cd97f80e571f80ea15bd848cb2995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 36/81] fix: merging sketches without clean records keeps
 missing and special counts

---
 optbinning/binning/distributed/bsketch.py | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d75a10f..b20f391 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -184,13 +184,6 @@ class BSketch:
         if not self._mergeable(bsketch):
             raise Exception("bsketch does not share signature.")
 
-        if bsketch._sketch_e.n == 0 and bsketch._sketch_ne.n == 0:
-            return
-
-        if self._sketch_e.n == 0 and self._sketch_ne.n == 0:
-            self._copy(bsketch)
-            return
-
         # Merge sketches
         if self.sketch == "gk":
             self._sketch_e.merge(bsketch._sketch_e)
@@ -217,16 +210,6 @@ class BSketch:
 
         return new_sketch
 
-    def _copy(self, bsketch):
-        self._sketch_e = bsketch._sketch_e
-        self._sketch_ne = bsketch._sketch_ne
-
-        # Merge missing and special counts
-        self._count_missing_e = bsketch._count_missing_e
-        self._count_missing_ne = bsketch._count_missing_ne
-        self._count_special_e = bsketch._count_special_e
-        self._count_special_ne = bsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From eab51ad9a806f04be18958f4f49cd6549a99cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 37/81] fix: merged categorical sketches do not share their
 counts

---
 optbinning/binning/distributed/bsketch.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index b20f391..85fcb74 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -384,7 +384,7 @@ class BCatSketch:
                 self._d_categories[k][0] += v[0]
                 self._d_categories[k][1] += v[1]
             else:
-                self._d_categories[k] = v
+                self._d_categories[k] = list(v)
 
         # Merge missing and special counts
         self._count_missing_e += bcatsketch._count_missing_e
@@ -392,13 +392,6 @@ class BCatSketch:
         self._count_special_e += bcatsketch._count_special_e
         self._count_special_ne += bcatsketch._count_special_ne
 
-    def _copy(self, bcatsketch):
-        self._d_categories = bcatsketch._d_categories
-        self._count_missing_e = bcatsketch._count_missing_e
-        self._count_missing_ne = bcatsketch._count_missing_ne
-        self._count_special_e = bcatsketch._count_special_e
-        self._count_special_ne = bcatsketch._count_special_ne
-
     def _mergeable(self, other):
         special_eq = True
         if self.special_codes is not None and other.special_codes is not None:
-- 
2.43.0


From 2736b40ffd7f5835b9009622a2a0aa9c41c2d459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 38/81] fix: merging sketches with different special codes is
 refused

---
 optbinning/binning/distributed/bsketch.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 85fcb74..8eb8d1c 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -211,8 +211,9 @@ class BSketch:
         return new_sketch
 
     def _mergeable(self, other):
-        special_eq = True
-        if self.special_codes is not None and other.special_codes is not None:
+        if self.special_codes is None or other.special_codes is None:
+            special_eq = self.special_codes is other.special_codes
+        else:
             special_eq = set(self.special_codes) == set(other.special_codes)
 
         return (self.sketch == other.sketch and self.eps == other.eps and
@@ -378,6 +379,9 @@ class BCatSketch:
             BCatSketch instance.
         """
 
+        if not self._mergeable(bcatsketch):
+            raise Exception("bcatsketch does not share signature.")
+
         # Merge categories
         for k, v in bcatsketch._d_categories.items():
             if k in self._d_categories:
@@ -393,8 +397,9 @@ class BCatSketch:
         self._count_special_ne += bcatsketch._count_special_ne
 
     def _mergeable(self, other):
-        special_eq = True
-        if self.special_codes is not None and other.special_codes is not None:
+        if self.special_codes is None or other.special_codes is None:
+            special_eq = self.special_codes is other.special_codes
+        else:
             special_eq = set(self.special_codes) == set(other.special_codes)
 
         return special_eq
-- 
2.43.0


From c043557d7bbb44c5bea5e31710e0090c4ff0b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 39/81] fix: sketch bins are left-closed

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index 8eb8d1c..d954ed4 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -58,7 +58,7 @@ def _indices_count(sketch_type, sketch, splits):
             values[i] = centroid.mean
             count[i] = centroid.count
 
-    indices = np.searchsorted(splits, values, side='left')
+    indices = np.searchsorted(splits, values, side='right')
     return indices, count
 
 
-- 
2.43.0


From 20204db37226348b97e3f2cbf04ce4022bae1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:04 +0000
Subject: [PATCH 40/81] fix: domain of sketch eps

---
 optbinning/binning/distributed/bsketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/bsketch.py b/optbinning/binning/distributed/bsketch.py
index d954ed4..01cb5aa 100644
--- a/optbinning/binning/distributed/bsketch.py
+++ b/optbinning/binning/distributed/bsketch.py
@@ -30,7 +30,7 @@ def _check_parameters(sketch, eps, K, special_codes):
                           'install optbinning using pip install '
                           'optbinning[distributed]')
 
-    if not isinstance(eps, numbers.Number) and not 0 <= eps <= 1:
+    if not isinstance(eps, numbers.Number) or not 0 <= eps <= 1:
         raise ValueError("eps must be a value in [0, 1]; got {}."
                          .format(eps))
 
-- 
2.43.0


From 1038725ea7afa93e010e8ba95125209dbf2e1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 41/81] fix: merging sketches that have no data yet, and their
 counters

---
 .../distributed/binning_process_sketch.py     | 116 ++++++++++--------
 .../binning/distributed/binning_sketch.py     |  20 +--
 2 files changed, 77 insertions(+), 59 deletions(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index aa3aaa6..917a746 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -293,55 +293,7 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         self : BinningProcessSketch
             Binning process with new data.
         """
-        if not self._is_started:
-            self._n_samples = 0
-            self._n_variables = len(self.variable_names)
-
-            if self.categorical_variables is not None:
-                self._n_categorical = len(self.categorical_variables)
-            else:
-                self._n_categorical = 0
-
-            self._n_numerical = self._n_variables - self._n_categorical
-
-            # Check selection criteria
-            if self.selection_criteria is not None:
-                _check_selection_criteria(self.selection_criteria,
-                                          self._target_dtype)
-
-            # Initialize bsketch for each variable. To avoid mixed dtypes
-            # the user must provide a dtype for all variables. This differs
-            # from the BinningProcess, where dtypes are inferred.
-            for name in self.variable_names:
-                if (self.categorical_variables is not None and
-                        name in self.categorical_variables):
-                    dtype = "categorical"
-                else:
-                    dtype = "numerical"
-
-                optb = OptimalBinningSketch(
-                        name=name, dtype=dtype,
-                        max_n_prebins=self.max_n_prebins,
-                        min_n_bins=self.min_n_bins,
-                        max_n_bins=self.max_n_bins,
-                        min_bin_size=self.min_bin_size,
-                        max_bin_size=self.max_bin_size,
-                        max_pvalue=self.max_pvalue,
-                        max_pvalue_policy=self.max_pvalue_policy,
-                        special_codes=self.special_codes,
-                        split_digits=self.split_digits)
-
-                if self.binning_fit_params is not None:
-                    params = self.binning_fit_params.get(name, {})
-                else:
-                    params = {}
-
-                optb.set_params(**params)
-
-                self._variable_dtypes[name] = dtype
-                self._binned_variables[name] = optb
-
-            self._is_started = True
+        self._start()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -424,9 +376,16 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
         if not self.mergeable(bpsketch):
             raise Exception("bpsketch does not share signature.")
 
-        for name in self.variable_names:
-            self._binned_variables[name].merge(
-                bpsketch._binned_variables[name])
+        if bpsketch._is_started:
+            self._start()
+
+            for name in self.variable_names:
+                self._binned_variables[name].merge(
+                    bpsketch._binned_variables[name])
+
+            # Update count samples and addition operations
+            self._n_samples += bpsketch._n_samples
+            self._n_add += bpsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -587,6 +546,59 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
         return pd.DataFrame(X_transform, columns=selected_variables)
 
+    def _start(self):
+        if self._is_started:
+            return
+
+        self._n_samples = 0
+        self._n_variables = len(self.variable_names)
+
+        if self.categorical_variables is not None:
+            self._n_categorical = len(self.categorical_variables)
+        else:
+            self._n_categorical = 0
+
+        self._n_numerical = self._n_variables - self._n_categorical
+
+        # Check selection criteria
+        if self.selection_criteria is not None:
+            _check_selection_criteria(self.selection_criteria,
+                                      self._target_dtype)
+
+        # Initialize bsketch for each variable. To avoid mixed dtypes
+        # the user must provide a dtype for all variables. This differs
+        # from the BinningProcess, where dtypes are inferred.
+        for name in self.variable_names:
+            if (self.categorical_variables is not None and
+                    name in self.categorical_variables):
+                dtype = "categorical"
+            else:
+                dtype = "numerical"
+
+            optb = OptimalBinningSketch(
+                    name=name, dtype=dtype,
+                    max_n_prebins=self.max_n_prebins,
+                    min_n_bins=self.min_n_bins,
+                    max_n_bins=self.max_n_bins,
+                    min_bin_size=self.min_bin_size,
+                    max_bin_size=self.max_bin_size,
+                    max_pvalue=self.max_pvalue,
+                    max_pvalue_policy=self.max_pvalue_policy,
+                    special_codes=self.special_codes,
+                    split_digits=self.split_digits)
+
+            if self.binning_fit_params is not None:
+                params = self.binning_fit_params.get(name, {})
+            else:
+                params = {}
+
+            optb.set_params(**params)
+
+            self._variable_dtypes[name] = dtype
+            self._binned_variables[name] = optb
+
+        self._is_started = True
+
     def get_binned_variable(self, name):
         """Return optimal binning sketch object for a given variable name.
 
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 06243d5..006ea15 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -472,12 +472,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         check_input : bool (default=False)
             Whether to check input arrays.
         """
-        if self._bsketch is None:
-            if self.dtype == "numerical":
-                self._bsketch = BSketch(self.sketch, self.eps, self.K,
-                                        self.special_codes)
-            else:
-                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+        self._init_bsketch()
 
         # Add new data stream
         time_add = time.perf_counter()
@@ -541,7 +536,10 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self.mergeable(optbsketch):
             raise Exception("optbsketch does not share signature.")
 
-        self._bsketch.merge(optbsketch._bsketch)
+        if optbsketch._bsketch is not None:
+            self._init_bsketch()
+            self._bsketch.merge(optbsketch._bsketch)
+            self._n_add += optbsketch._n_add
 
         if self.verbose:
             logger.info("Sketch: current sketch was merged.")
@@ -699,6 +697,14 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                                        metric, metric_special, metric_missing,
                                        None, show_digits, check_input)
 
+    def _init_bsketch(self):
+        if self._bsketch is None:
+            if self.dtype == "numerical":
+                self._bsketch = BSketch(self.sketch, self.eps, self.K,
+                                        self.special_codes)
+            else:
+                self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
+
     def _prebinning_data(self):
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
-- 
2.43.0


From a0a7a62630b6494642d6edcbbf609f0f05182f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 42/81] fix: information of a sketch solved without the solver

---
 optbinning/binning/distributed/binning_sketch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 006ea15..40480bb 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -434,6 +434,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         self._bsketch = None
 
         # info
+        self._optimizer = None
         self._binning_table = None
         self._n_refinements = 0
         self._n_prebins = None
@@ -819,6 +820,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
 
         if len(n_nonevent) <= 1:
             self._status = "OPTIMAL"
+            self._optimizer = None
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits)).astype(bool)
 
-- 
2.43.0


From 97e55c5f2471ec085a82fbbc75b3c7569a3490f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 43/81] fix: single bin of a sketch does not count special and
 missing records

---
 optbinning/binning/distributed/binning_sketch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 40480bb..1d12c33 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -611,8 +611,8 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         time_postprocessing = time.perf_counter()
 
         if not len(splits):
-            n_nonevent = np.array([self._t_n_nonevent])
-            n_event = np.array([self._t_n_event])
+            n_nonevent = np.array([n_nonevent.sum()])
+            n_event = np.array([n_event.sum()])
 
         self._n_nonevent, self._n_event = bin_info(
             self._solution, n_nonevent, n_event, self._n_nonevent_missing,
-- 
2.43.0


From 744f71385b3617fc82478b67ac8e3692c2a70afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 44/81] fix: number of refinements and pure prebins flag of
 each sketch solve

---
 optbinning/binning/distributed/binning_sketch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 1d12c33..8bbfeed 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -707,6 +707,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 self._bsketch = BCatSketch(self.cat_cutoff, self.special_codes)
 
     def _prebinning_data(self):
+        self._n_refinements = 0
+        self._flag_min_n_event_nonevent = False
+
         self._n_nonevent_missing = self._bsketch._count_missing_ne
         self._n_nonevent_special = self._bsketch._count_special_ne
         self._n_event_missing = self._bsketch._count_missing_e
@@ -748,8 +751,6 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         return splits, n_nonevent, n_event
 
     def _compute_prebins(self, splits):
-        self._n_refinements = 0
-
         n_event, n_nonevent = self._bsketch.bins(splits)
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
@@ -768,7 +769,6 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         return splits, n_nonevent, n_event
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
-        self._n_refinements = 0
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
         if self.cat_heuristic and len(categories) > self.max_n_prebins:
-- 
2.43.0


From db77db7401243d6d4f90ab4781de7f4b3bec555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 45/81] fix: sketch with only events or only non-events

---
 optbinning/binning/distributed/binning_sketch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 8bbfeed..b8d9f09 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -754,7 +754,7 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         n_event, n_nonevent = self._bsketch.bins(splits)
         mask_remove = (n_nonevent == 0) | (n_event == 0)
 
-        if np.any(mask_remove):
+        if len(splits) and np.any(mask_remove):
             if self.divergence in ("hellinger", "triangular"):
                 self._flag_min_n_event_nonevent = True
             else:
-- 
2.43.0


From 9ee53aa3bfc64d653b0f7fea03bc1209ec8014c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 46/81] fix: refinement of categorical sketch prebins

---
 .../binning/distributed/binning_sketch.py     | 63 +++++++++----------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index b8d9f09..29ab5cc 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -769,48 +769,45 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         return splits, n_nonevent, n_event
 
     def _compute_cat_prebins(self, splits, categories, n_nonevent, n_event):
-        mask_remove = (n_nonevent == 0) | (n_event == 0)
-
-        if self.cat_heuristic and len(categories) > self.max_n_prebins:
-            n_records = n_nonevent + n_event
+        # Number of records of the prebins defined by splits
+        splits_int = np.ceil(splits).astype(int)
+        indices = np.digitize(np.arange(len(categories)), splits_int,
+                              right=False)
+        n_bins = len(splits) + 1
+
+        bin_nonevent = np.empty(n_bins, dtype=np.int64)
+        bin_event = np.empty(n_bins, dtype=np.int64)
+        for i in range(n_bins):
+            mask = (indices == i)
+            bin_nonevent[i] = n_nonevent[mask].sum()
+            bin_event[i] = n_event[mask].sum()
+
+        mask_remove = (bin_nonevent == 0) | (bin_event == 0)
+        allow_pure = self.divergence in ("hellinger", "triangular")
+
+        if allow_pure and np.any(mask_remove):
+            self._flag_min_n_event_nonevent = True
+
+            if self.cat_heuristic:
+                mask_remove = np.zeros(n_bins, dtype=bool)
+
+        if self.cat_heuristic and n_bins > self.max_n_prebins:
+            n_records = bin_nonevent + bin_event
             mask_size = n_records < self._bsketch.n / self.max_n_prebins
             mask_remove |= mask_size
 
-        if np.any(mask_remove):
-            if self.divergence in ("hellinger", "triangular"):
-                self._flag_min_n_event_nonevent = True
-
-                if self.cat_heuristic:
-                    mask_remove = mask_size
-            else:
+        if len(splits) and np.any(mask_remove):
+            if not allow_pure:
                 self._n_refinements += 1
 
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            splits = splits[~mask_splits]
-
-            splits_int = np.ceil(splits).astype(int)
-            indices = np.digitize(np.arange(len(categories)), splits_int,
-                                  right=False)
-            n_bins = len(splits) + 1
-
-            new_nonevent = np.empty(n_bins, dtype=np.int64)
-            new_event = np.empty(n_bins, dtype=np.int64)
-            new_categories = []
-            for i in range(n_bins):
-                mask = (indices == i)
-                new_categories.append(categories[mask])
-                new_nonevent[i] = n_nonevent[mask].sum()
-                new_event[i] = n_event[mask].sum()
-
-            new_categories = np.array(new_categories, dtype=object)
-
-            [splits, categories, n_nonevent,
-             n_event] = self._compute_cat_prebins(
-                splits, new_categories, new_nonevent, new_event)
+            [splits, categories, bin_nonevent,
+             bin_event] = self._compute_cat_prebins(
+                splits[~mask_splits], categories, n_nonevent, n_event)
 
-        return splits, categories, n_nonevent, n_event
+        return splits, categories, bin_nonevent, bin_event
 
     def _fit_optimizer(self, splits, n_nonevent, n_event):
         if self.verbose:
-- 
2.43.0


From 55df630d3575e11bdcc740f6ec1e931f5242cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 47/81] fix: split_digits option of sketches

---
 optbinning/binning/distributed/binning_sketch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 29ab5cc..32924a5 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -732,6 +732,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
                 splits = np.array([sketch_all.percentile(p)
                                    for p in percentiles[1:-1]])
 
+            if self.split_digits is not None:
+                splits = np.round(splits, self.split_digits)
+
             splits, n_nonevent, n_event = self._compute_prebins(splits)
         else:
             [splits, categories, n_nonevent, n_event, cat_others,
-- 
2.43.0


From f2f699fa09248a922b6178ea0aba58a2b8f3ee27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:00 +0000
Subject: [PATCH 48/81] fix: index of the data frame transformed by a binning
 process sketch

---
 optbinning/binning/distributed/binning_process_sketch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 917a746..14786b2 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -544,7 +544,8 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
 
             X_transform[:, i] = optb.transform(**tparams)
 
-        return pd.DataFrame(X_transform, columns=selected_variables)
+        return pd.DataFrame(
+            X_transform, columns=selected_variables, index=X.index)
 
     def _start(self):
         if self._is_started:
-- 
2.43.0


From dee0d05ecf97a946c7cbb6cc64cfd4076f28d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:24 +0000
Subject: [PATCH 49/81] fix: restore binnings from json files

---
 optbinning/binning/binning.py            | 26 ++++++++++++++++--------
 optbinning/binning/binning_statistics.py | 25 +++++++++++++++++++++++
 optbinning/binning/continuous_binning.py | 23 +++++++++++++--------
 optbinning/binning/multiclass_binning.py | 20 ++++++++++--------
 4 files changed, 69 insertions(+), 25 deletions(-)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index 8624976..aa1a1ff 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -20,6 +20,8 @@ from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .base import BaseOptimalBinning
 from .binning_information import print_binning_information
+from .binning_statistics import _json_default
+from .binning_statistics import _read_json_table
 from .binning_statistics import bin_categorical
 from .binning_statistics import bin_info
 from .binning_statistics import BinningTable
@@ -1234,7 +1236,7 @@ class OptimalBinning(BaseOptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=_json_default)
 
     def read_json(self, path):
         """
@@ -1245,13 +1247,21 @@ class OptimalBinning(BaseOptimalBinning):
         ----------
         path: The path of the json file.
         """
-        self._is_fitted = True
+        if path is None:
+            raise ValueError('Specify the path for the json file.')
+
+        table = BinningTable(**_read_json_table(path))
 
-        with open(path, "r") as read_file:
-            bin_table_attr = json.load(read_file)
+        if table.dtype != self.dtype:
+            raise ValueError("dtype of the json file is {}; expected {}."
+                             .format(table.dtype, self.dtype))
 
-        for key in bin_table_attr.keys():
-            if isinstance(bin_table_attr[key], list):
-                bin_table_attr[key] = np.array(bin_table_attr[key])
+        self._splits_optimal = table.splits
+        self._n_nonevent = table.n_nonevent
+        self._n_event = table.n_event
+        self._categories = table.categories
+        self._cat_others = table.cat_others
+        self._binning_table = table
 
-        self._binning_table = BinningTable(**bin_table_attr)
+        # Completed successfully
+        self._is_fitted = True
diff --git a/optbinning/binning/binning_statistics.py b/optbinning/binning/binning_statistics.py
index 64e39a4..0b7379b 100644
--- a/optbinning/binning/binning_statistics.py
+++ b/optbinning/binning/binning_statistics.py
@@ -5,6 +5,7 @@ Optimal binning algorithm.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2019
 
+import json
 import numbers
 
 import matplotlib.patches as mpatches
@@ -77,6 +78,30 @@ def bin_str_format(bins, show_digits):
     return bin_str
 
 
+def _json_default(obj):
+    if isinstance(obj, (np.ndarray, np.generic)):
+        return obj.tolist()
+
+    raise TypeError("Object of type {} is not JSON serializable."
+                    .format(type(obj)))
+
+
+def _read_json_table(path):
+    with open(path, "r") as read_file:
+        attrs = json.load(read_file)
+
+    for key, value in attrs.items():
+        if isinstance(value, list):
+            if (attrs.get("dtype") == "categorical" and
+                    key in ("categories", "cat_others", "user_splits")):
+                # one-dimensional array, although values might be lists
+                attrs[key] = np.array(value + [None], dtype=object)[:-1]
+            else:
+                attrs[key] = np.array(value)
+
+    return attrs
+
+
 def bin_categorical(splits_categorical, categories, cat_others, user_splits):
     splits = np.ceil(splits_categorical).astype(int)
     n_categories = len(categories)
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index fe0c78f..5a5562a 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -18,6 +18,8 @@ from ..logging import Logger
 from .auto_monotonic import auto_monotonic_continuous
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .binning import OptimalBinning
+from .binning_statistics import _json_default
+from .binning_statistics import _read_json_table
 from .binning_statistics import continuous_bin_info
 from .binning_statistics import ContinuousBinningTable
 from .binning_statistics import target_info_special_continuous
@@ -1047,7 +1049,7 @@ class ContinuousOptimalBinning(OptimalBinning):
         opt_bin_dict['user_splits'] = table.user_splits
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=_json_default)
 
     def read_json(self, path):
         """
@@ -1061,13 +1063,18 @@ class ContinuousOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
+        table = ContinuousBinningTable(**_read_json_table(path))
 
-        with open(path, "r") as read_file:
-            cont_table_attr = json.load(read_file)
+        if table.dtype != self.dtype:
+            raise ValueError("dtype of the json file is {}; expected {}."
+                             .format(table.dtype, self.dtype))
 
-        for key in cont_table_attr.keys():
-            if isinstance(cont_table_attr[key], list):
-                cont_table_attr[key] = np.array(cont_table_attr[key])
+        self._splits_optimal = table.splits
+        self._n_records = table.n_records
+        self._sums = table.sums
+        self._categories = table.categories
+        self._cat_others = table.cat_others
+        self._binning_table = table
 
-        self._binning_table = ContinuousBinningTable(**cont_table_attr)
+        # Completed successfully
+        self._is_fitted = True
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 8f537b1..998afb9 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -18,6 +18,8 @@ from ..logging import Logger
 from .auto_monotonic import auto_monotonic
 from .auto_monotonic import peak_valley_trend_change_heuristic
 from .binning import OptimalBinning
+from .binning_statistics import _json_default
+from .binning_statistics import _read_json_table
 from .binning_statistics import multiclass_bin_info
 from .binning_statistics import MulticlassBinningTable
 from .binning_statistics import target_info
@@ -936,7 +938,7 @@ class MulticlassOptimalBinning(OptimalBinning):
         opt_bin_dict['classes'] = table.classes.tolist()
 
         with open(path, "w") as write_file:
-            json.dump(opt_bin_dict, write_file)
+            json.dump(opt_bin_dict, write_file, default=_json_default)
 
     def read_json(self, path):
         """
@@ -950,13 +952,13 @@ class MulticlassOptimalBinning(OptimalBinning):
         if path is None:
             raise ValueError('Specify the path for the json file.')
 
-        self._is_fitted = True
-
-        with open(path, "r") as read_file:
-            multi_table_attr = json.load(read_file)
+        table = MulticlassBinningTable(**_read_json_table(path))
 
-        for key in multi_table_attr.keys():
-            if isinstance(multi_table_attr[key], list):
-                multi_table_attr[key] = np.array(multi_table_attr[key])
+        self._splits_optimal = table.splits
+        self._n_event = table.n_event
+        self._classes = table.classes
+        self._n_classes = len(table.classes)
+        self._binning_table = table
 
-        self._binning_table = MulticlassBinningTable(**multi_table_attr)
+        # Completed successfully
+        self._is_fitted = True
-- 
2.43.0


From a458eceeb3aa288854548594810f81232b0c97b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 50/81] fix: two-dimensional records with a missing and a
 special value are missing

---
 optbinning/binning/multidimensional/preprocessing_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/preprocessing_2d.py b/optbinning/binning/multidimensional/preprocessing_2d.py
index 11d4b74..82d9bfd 100644
--- a/optbinning/binning/multidimensional/preprocessing_2d.py
+++ b/optbinning/binning/multidimensional/preprocessing_2d.py
@@ -88,7 +88,7 @@ def split_data_2d(dtype_x, dtype_y, x, y, z, special_codes_x=None,
         special_mask_y = np.zeros(len(y), dtype=bool)
 
     missing_mask = missing_mask_x | missing_mask_y
-    special_mask = special_mask_x | special_mask_y
+    special_mask = (special_mask_x | special_mask_y) & ~missing_mask
 
     clean_mask = ~missing_mask & ~special_mask
 
-- 
2.43.0


From 8636f53f875570da22099577b798e2e143752cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 51/81] fix: two-dimensional transform with special codes given
 as arrays

---
 optbinning/binning/multidimensional/transformations_2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/binning/multidimensional/transformations_2d.py b/optbinning/binning/multidimensional/transformations_2d.py
index c3ff7c4..3d3db4d 100644
--- a/optbinning/binning/multidimensional/transformations_2d.py
+++ b/optbinning/binning/multidimensional/transformations_2d.py
@@ -87,7 +87,7 @@ def _apply_transform(dtype_x, dtype_y, splits_x, splits_y, special_codes_x,
 
     z_transform[clean_mask] = z_clean_transform
 
-    if special_codes_x or special_codes_y:
+    if special_codes_x is not None or special_codes_y is not None:
         if (metric_special == "empirical" or
             (metric == "indices" and not isinstance(metric_special, int)) or
                 metric == "bins"):
-- 
2.43.0


From 182bba1eede11096287bef453ac779d35395a820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 52/81] fix: reproducible cart strategy of two-dimensional
 binning

---
 optbinning/binning/multidimensional/binning_2d.py            | 3 ++-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index ac66cb1..87615c3 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -659,7 +659,8 @@ class OptimalBinning2D(OptimalBinning):
                                   self.min_prebin_size_y) * 0.25
 
             clf = DecisionTreeClassifier(min_samples_leaf=min_prebin_size,
-                                         max_leaf_nodes=clf_nodes)
+                                         max_leaf_nodes=clf_nodes,
+                                         random_state=0)
             clf.fit(xyt, z_clean)
 
             self._clf = clf
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index f24102e..37df289 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -584,7 +584,8 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
                                   self.min_prebin_size_y) * 0.25
 
             clf = DecisionTreeRegressor(min_samples_leaf=min_prebin_size,
-                                        max_leaf_nodes=clf_nodes)
+                                        max_leaf_nodes=clf_nodes,
+                                        random_state=0)
             clf.fit(xyt, z_clean)
 
             self._clf = clf
-- 
2.43.0


From 1caf738febbade4ab4ee2cc7073c716630e45604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 53/81] fix: logged monotonic trend of the second variable

---
 optbinning/binning/multidimensional/binning_2d.py            | 2 +-
 optbinning/binning/multidimensional/continuous_binning_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 87615c3..f19e284 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -846,7 +846,7 @@ class OptimalBinning2D(OptimalBinning):
                     "Optimizer: monotonic trend y not set.")
             else:
                 logger.info("Optimizer: monotonic trend y set to {}."
-                            .format(self.monotonic_trend_x))
+                            .format(self.monotonic_trend_y))
 
         if self.solver == "cp":
             scale = int(1e6)
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 37df289..9e499d7 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -772,7 +772,7 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
                     "Optimizer: monotonic trend y not set.")
             else:
                 logger.info("Optimizer: monotonic trend y set to {}."
-                            .format(self.monotonic_trend_x))
+                            .format(self.monotonic_trend_y))
 
         if self.solver == "cp":
             scale = int(1e6)
-- 
2.43.0


From 5ddff5b3637fa22d3240f85a3232d1c0779998f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:52 +0000
Subject: [PATCH 54/81] fix: closing a logger removes every handler

---
 optbinning/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/logging.py b/optbinning/logging.py
index 023154d..7ecb7c2 100644
--- a/optbinning/logging.py
+++ b/optbinning/logging.py
@@ -28,6 +28,6 @@ class Logger:
             self.logger.addHandler(fhandler)
 
     def close(self):
-        for handler in self.logger.handlers:
+        for handler in self.logger.handlers[:]:
             handler.close()
             self.logger.removeHandler(handler)
-- 
2.43.0


From 356b467de7405a680cd57cac1aa9307901da15d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 55/81] fix: refitting MDLP forgets the splits of the previous
 fit

---
 optbinning/binning/mdlp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 835ec7b..1611d9f 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -106,6 +106,7 @@ class MDLP(BaseEstimator):
         x = x[idx]
         y = y[idx]
 
+        self._splits = []
         self._recurse(x, y, 0)
 
         self._is_fitted = True
-- 
2.43.0


From e108ce819d63c138fa2a6dd34d38b6c64d66fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 56/81] fix: monitoring bins are left-closed as their labels
 say

---
 optbinning/scorecard/monitoring.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0226dad..0ea1b16 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -76,7 +76,7 @@ def print_psi_report(df_psi):
 
     splits = [0.1, 0.25]
     n_bins = len(splits) + 1
-    indices = np.digitize(psi, splits, right=True)
+    indices = np.digitize(psi, splits, right=False)
 
     psi_bins = np.empty(n_bins, dtype=np.int64)
     for i in range(n_bins):
@@ -107,7 +107,7 @@ def print_tests_report(df_tests):
 
     splits = [0.05, 0.1, 0.5]
     n_bins = len(splits) + 1
-    indices = np.digitize(pvalues, splits, right=True)
+    indices = np.digitize(pvalues, splits, right=False)
 
     pvalue_bins = np.empty(n_bins, dtype=np.int64)
     for i in range(n_bins):
@@ -499,8 +499,8 @@ class ScorecardMonitoring(BaseEstimator):
         n_bins = len(splits) + 1
 
         # Compute basic metrics
-        indices_a = np.digitize(score_actual, splits, right=True)
-        indices_e = np.digitize(score_expected, splits, right=True)
+        indices_a = np.digitize(score_actual, splits, right=False)
+        indices_e = np.digitize(score_expected, splits, right=False)
 
         if self._target_dtype == "binary":
             n_nonevent_a = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From 862c4d66cc11accd80e5acdec1e095c70eeedb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:03 +0000
Subject: [PATCH 57/81] fix: variable PSI counts the bins of both data sets

---
 optbinning/scorecard/monitoring.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 0ea1b16..3f3caf4 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -781,10 +781,14 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
-
-            n_bins = te.max() + 1
+            ta = optb.transform(X_actual[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+            te = optb.transform(X_expected[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+
+            n_bins = max(ta.max(), te.max()) + 1
 
             n_records_a = np.empty(n_bins, dtype=np.int64)
             n_records_e = np.empty(n_bins, dtype=np.int64)
-- 
2.43.0


From 4a9434b7bd9d687fb76bcde4a5a5f86b3ce06e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 58/81] fix: counterfactual metrics follow the chosen bins
 without proximity objective

---
 optbinning/scorecard/counterfactual/mip.py      | 17 ++++++++---------
 .../scorecard/counterfactual/multi_mip.py       | 17 ++++++++---------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index e586776..1ceb6df 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -71,10 +71,9 @@ class CFMIP:
         solver.Minimize(solver.Sum([weights[name] * objs[name]
                                     for name in names]))
 
-        # Constraint: proximity
-        if "proximity" in self.objectives:
-            self.add_constraint_proximity(
-                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+        # Constraint: counterfactual metric and proximity
+        self.add_constraint_proximity(
+            solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
         # Constraint: closeness
         if "closeness" in self.objectives:
@@ -146,10 +145,9 @@ class CFMIP:
                     solver.Add(d_p[i] - d_m[i] == objs[pobj_name] - pobj_val)
                     solver.Add(d_p[i] + d_m[i] <= self.priority_tol * absval)
 
-            # Constraint: proximity
-            if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            # Constraint: counterfactual metric and proximity
+            self.add_constraint_proximity(
+                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -263,7 +261,8 @@ class CFMIP:
                                  t_m, z):
         for i in range(p):
             # Absolute value
-            solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
+            if "proximity" in self.objectives:
+                solver.Add(t_p[i] - t_m[i] == x[i] - x_p[i])
 
             # Compute x'
             solver.Add(x_p[i] == x[i] + solver.Sum([
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index c9b9f18..168a235 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -54,10 +54,9 @@ class MCFMIP(CFMIP):
 
         # Constraints
         for k in range(self.K):
-            # Constraint: proximity
-            if "proximity" in self.objectives:
-                self.add_constraint_proximity(
-                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+            # Constraint: counterfactual metric and proximity
+            self.add_constraint_proximity(
+                solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
             # Constraint: closeness
             if "closeness" in self.objectives:
@@ -157,10 +156,9 @@ class MCFMIP(CFMIP):
 
             # Constraints
             for k in range(self.K):
-                # Constraint: proximity
-                if "proximity" in self.objectives:
-                    self.add_constraint_proximity(
-                        solver, p, x, nbins, metric, x_p, t_p, t_m, z)
+                # Constraint: counterfactual metric and proximity
+                self.add_constraint_proximity(
+                    solver, p, x, nbins, metric, x_p, t_p, t_m, z)
 
                 # Constraint: closeness
                 if "closeness" in self.objectives:
@@ -321,7 +319,8 @@ class MCFMIP(CFMIP):
         for k in range(self.K):
             for i in range(p):
                 # Absolute value
-                solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
+                if "proximity" in self.objectives:
+                    solver.Add(t_p[k, i] - t_m[k, i] == x[i] - x_p[k, i])
 
                 # Compute x'
                 solver.Add(x_p[k, i] == x[i] + solver.Sum(
-- 
2.43.0


From 74e87a1aec0932a1c24d4ff66dea3a525f6ca4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 59/81] fix: counterfactuals of features with the same number
 of bins

---
 optbinning/scorecard/counterfactual/mip.py       |  7 +++----
 optbinning/scorecard/counterfactual/multi_mip.py | 10 ++++------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/mip.py b/optbinning/scorecard/counterfactual/mip.py
index 1ceb6df..d77750a 100644
--- a/optbinning/scorecard/counterfactual/mip.py
+++ b/optbinning/scorecard/counterfactual/mip.py
@@ -196,10 +196,9 @@ class CFMIP:
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array([np.array([self._z[i, j].solution_value()
-                                           for j in range(self._nbins[i])]
-                                          ).astype(bool)
-                                 for i in range(self._p)], dtype=object)
+            solution = [np.array([self._z[i, j].solution_value() > 0.5
+                                  for j in range(self._nbins[i])], dtype=bool)
+                        for i in range(self._p)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
diff --git a/optbinning/scorecard/counterfactual/multi_mip.py b/optbinning/scorecard/counterfactual/multi_mip.py
index 168a235..2730b4a 100644
--- a/optbinning/scorecard/counterfactual/multi_mip.py
+++ b/optbinning/scorecard/counterfactual/multi_mip.py
@@ -235,12 +235,10 @@ class MCFMIP(CFMIP):
             else:
                 status_name = "FEASIBLE"
 
-            solution = np.array(
-                [np.array(
-                    [np.array([self._z[k, i, j].solution_value()
-                               for j in range(self._nbins[i])]).astype(bool)
-                     for i in range(self._p)], dtype=object)
-                 for k in range(self.K)], dtype=object)
+            solution = [
+                [np.array([self._z[k, i, j].solution_value() > 0.5
+                           for j in range(self._nbins[i])], dtype=bool)
+                 for i in range(self._p)] for k in range(self.K)]
         else:
             if status == pywraplp.Solver.ABNORMAL:
                 status_name = "ABNORMAL"
-- 
2.43.0


From ba805f24121fa393ceb27ea916ee66069947321c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 60/81] fix: counterfactuals without special bins leave out
 every special group

---
 optbinning/scorecard/counterfactual/model_data.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index 2220286..f6abc68 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -20,7 +20,13 @@ def model_data(scorecard, x, special_missing):
         metric_i = sc[sc.Variable == v][metric_name].values
 
         if not special_missing:
-            metric_i = metric_i[:-2]
+            optb = scorecard.binning_process_.get_binned_variable(v)
+            if isinstance(optb.special_codes, dict):
+                n_specials = len(optb.special_codes)
+            else:
+                n_specials = 1
+
+            metric_i = metric_i[:-(n_specials + 1)]
 
         _metric = []
         _indices = []
-- 
2.43.0


From 81f96ac887decbd1112b5cdcc2e8cfcb7413fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 61/81] fix: counterfactuals use the special and missing
 metrics of the scorecard

---
 optbinning/scorecard/counterfactual/counterfactual.py | 4 +++-
 optbinning/scorecard/counterfactual/problem_data.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 485f7b7..0fd300e 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -618,7 +618,9 @@ class Counterfactual(BaseCounterfactual):
             query = pd.DataFrame.from_dict(query, orient="index").T
 
         x = self.scorecard.binning_process_.transform(
-            query[self._variable_names]).values.ravel()
+            query[self._variable_names],
+            metric_special=self.scorecard._metric_special,
+            metric_missing=self.scorecard._metric_missing).values.ravel()
 
         return x, query
 
diff --git a/optbinning/scorecard/counterfactual/problem_data.py b/optbinning/scorecard/counterfactual/problem_data.py
index 2b0131b..5e9ab01 100644
--- a/optbinning/scorecard/counterfactual/problem_data.py
+++ b/optbinning/scorecard/counterfactual/problem_data.py
@@ -49,7 +49,9 @@ def problem_data(scorecard, X):
     max_p += intercept
 
     # Mahalanobis distance
-    Xt = scorecard.binning_process_.transform(X).values
+    Xt = scorecard.binning_process_.transform(
+        X, metric_special=scorecard._metric_special,
+        metric_missing=scorecard._metric_missing).values
     F = np.linalg.cholesky(np.linalg.inv(np.cov(Xt.T)))
     mu = Xt.mean(axis=0)
 
-- 
2.43.0


From fbae0f3ea1ff5fa94cd06c5e39a304f41902212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 62/81] fix: refitting a scorecard forgets the previous
 intercept

---
 optbinning/scorecard/scorecard.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index 1a44993..dc2fcd4 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -492,6 +492,7 @@ class Scorecard(Base, BaseEstimator):
         # Store the metrics for missing and special bins for predictions
         self._metric_special = metric_special
         self._metric_missing = metric_missing
+        self.intercept_ = 0
 
         time_init = time.perf_counter()
 
-- 
2.43.0


From 4d4561fb8c97c785f9d94b97ed926c8ea45abdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 63/81] fix: variable PSI keeps special and missing records in
 the default bin

---
 optbinning/scorecard/monitoring.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index 3f3caf4..f424f21 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -781,12 +781,8 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices",
-                                metric_special="empirical",
-                                metric_missing="empirical")
-            te = optb.transform(X_expected[name], metric="indices",
-                                metric_special="empirical",
-                                metric_missing="empirical")
+            ta = optb.transform(X_actual[name], metric="indices")
+            te = optb.transform(X_expected[name], metric="indices")
 
             n_bins = max(ta.max(), te.max()) + 1
 
-- 
2.43.0


From 96ff7635b28d0c6732c42e45544949a2a503eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 64/81] fix: scenario binning keeps user_splits options and
 forgets the previous fit

---
 .../binning/uncertainty/binning_scenarios.py  | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 8b5c8d3..60dc633 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -309,8 +309,8 @@ class SBOptimalBinning(OptimalBinning):
         self._n_nonevent_special = None
         self._n_event_special = None
         self._problem_type = "classification"
-        self._user_splits = user_splits
-        self._user_splits_fixed = user_splits_fixed
+        self._user_splits_idx = None
+        self._user_splits_fixed = None
 
         # info
         self._binning_table = None
@@ -473,6 +473,9 @@ class SBOptimalBinning(OptimalBinning):
         _check_parameters(**self.get_params())
         _check_X_Y_weights(X, Y, weights)
 
+        # Remove information from previous fit
+        self._reset()
+
         self._n_scenarios = len(X)
 
         if self.verbose:
@@ -535,7 +538,8 @@ class SBOptimalBinning(OptimalBinning):
             user_splits = user_splits[sorted_idx]
 
             if self.user_splits_fixed is not None:
-                self.user_splits_fixed = np.asarray(
+                self._user_splits_idx = sorted_idx
+                self._user_splits_fixed = np.asarray(
                     self.user_splits_fixed)[sorted_idx]
 
             splits, n_nonevent, n_event = self._prebinning_refinement(
@@ -701,20 +705,21 @@ class SBOptimalBinning(OptimalBinning):
             mask_splits = np.concatenate(
                 [mask_remove[:-2], [mask_remove[-2] | mask_remove[-1]]])
 
-            if self.user_splits_fixed is not None:
-                user_splits_fixed = np.asarray(self._user_splits_fixed)
-                user_splits = np.asarray(self._user_splits)
+            if self._user_splits_fixed is not None:
+                user_splits_idx = self._user_splits_idx
+                user_splits_fixed = self._user_splits_fixed
                 fixed_remove = user_splits_fixed & mask_splits
 
                 if any(fixed_remove):
                     raise ValueError("Fixed user_splits {} are removed "
                                      "because produce pure prebins. Provide "
                                      "different splits to be fixed."
-                                     .format(user_splits[fixed_remove]))
+                                     .format([self.user_splits[i] for i in
+                                              user_splits_idx[fixed_remove]]))
 
                 # Update boolean array of fixed user splits.
                 self._user_splits_fixed = user_splits_fixed[~mask_splits]
-                self._user_splits = user_splits[~mask_splits]
+                self._user_splits_idx = user_splits_idx[~mask_splits]
 
             splits = splits_prebinning[~mask_splits]
 
@@ -760,7 +765,7 @@ class SBOptimalBinning(OptimalBinning):
                               self.max_n_bins, min_bin_size, max_bin_size,
                               None, None, None, None, self.min_event_rate_diff,
                               self.max_pvalue, self.max_pvalue_policy, None,
-                              self.user_splits_fixed, self.time_limit)
+                              self._user_splits_fixed, self.time_limit)
         if weights is None:
             weights = np.ones(self._n_scenarios, int)
 
-- 
2.43.0


From 5730fb65e0c753843b5ee540c1587b9c2b913e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 65/81] fix: scenario binning without splits after prebinning

---
 optbinning/binning/uncertainty/binning_scenarios.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/optbinning/binning/uncertainty/binning_scenarios.py b/optbinning/binning/uncertainty/binning_scenarios.py
index 60dc633..d2b92b5 100644
--- a/optbinning/binning/uncertainty/binning_scenarios.py
+++ b/optbinning/binning/uncertainty/binning_scenarios.py
@@ -562,6 +562,12 @@ class SBOptimalBinning(OptimalBinning):
                         .format(self._time_prebinning))
 
         # Optimization
+        if not len(splits):
+            n_nonevent = np.empty((1, self._n_scenarios), dtype=np.int64)
+            n_event = np.empty((1, self._n_scenarios), dtype=np.int64)
+            for s in range(self._n_scenarios):
+                n_nonevent[0, s], n_event[0, s] = target_info(y_clean[s])
+
         self._fit_optimizer(splits, n_nonevent, n_event, weights)
 
         # Post-processing
@@ -735,7 +741,7 @@ class SBOptimalBinning(OptimalBinning):
     def _fit_optimizer(self, splits, n_nonevent, n_event, weights):
         time_init = time.perf_counter()
 
-        if not len(n_nonevent):
+        if not len(splits):
             self._status = "OPTIMAL"
             self._splits_optimal = splits
             self._solution = np.zeros(len(splits), dtype=bool)
-- 
2.43.0


From eb13bc91cfd8065d7cdd33da967da37d965dceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:27 +0000
Subject: [PATCH 66/81] fix: scenario weights are not truncated to integers

---
 optbinning/binning/cp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/optbinning/binning/cp.py b/optbinning/binning/cp.py
index 74e369d..6650f77 100644
--- a/optbinning/binning/cp.py
+++ b/optbinning/binning/cp.py
@@ -186,9 +186,9 @@ class BinningCP:
         n_records = n_nonevent + n_event
         n_scenarios = len(w)
 
-        if w is not None:
-            sw = 10 ** np.abs(np.log10(np.min(w)))
-            w = [np.int64(w[s] * sw) for s in range(n_scenarios)]
+        # Integer weights relative to the smallest one
+        w = [int(np.round(1000 * w[s] / np.min(w)))
+             for s in range(n_scenarios)]
 
         # Initialize model
         model = cp_model.CpModel()
-- 
2.43.0


From 3a1aef0e574a0315057d65f2568ca6d23dfab648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 67/81] fix: tree prebinning keeps a split at -2

---
 optbinning/binning/prebinning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index 9b02baf..bde7dc8 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -115,8 +115,8 @@ class PreBinning:
                 est = DecisionTreeRegressor(**cart_kwargs)
 
             est.fit(x.reshape(-1, 1), y, sample_weight=sample_weight)
-            splits = np.unique(est.tree_.threshold)
-            self._splits = splits[splits != _tree.TREE_UNDEFINED]
+            mask = est.tree_.feature != _tree.TREE_UNDEFINED
+            self._splits = np.unique(est.tree_.threshold[mask])
 
         elif self.method == "mdlp":
             mdlp_kwargs = {"min_samples_leaf": self.min_bin_size}
-- 
2.43.0


From 9d9a7d4f1f2f2723c9fe872dc93ed734f8dc02b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:41 +0000
Subject: [PATCH 68/81] fix: reproducible quantile prebinning of large data

---
 optbinning/binning/prebinning.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optbinning/binning/prebinning.py b/optbinning/binning/prebinning.py
index bde7dc8..551b4e8 100644
--- a/optbinning/binning/prebinning.py
+++ b/optbinning/binning/prebinning.py
@@ -94,6 +94,9 @@ class PreBinning:
 
         if self.method in ("uniform", "quantile"):
             unsup_kwargs = {"n_bins": self.n_bins, "strategy": self.method}
+            # Recent versions draw a subsample of large data
+            if "random_state" in KBinsDiscretizer().get_params():
+                unsup_kwargs["random_state"] = 0
             unsup_kwargs.update(**self.kwargs)
 
             est = KBinsDiscretizer(**unsup_kwargs)
-- 
2.43.0


From 3a7451bf5f0e30b94004b59aff6714042e78b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 69/81] fix: piecewise metrics of special and missing groups
 with only one class

---
 optbinning/binning/piecewise/transformations.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/optbinning/binning/piecewise/transformations.py b/optbinning/binning/piecewise/transformations.py
index cfdaa8f..6ca463f 100644
--- a/optbinning/binning/piecewise/transformations.py
+++ b/optbinning/binning/piecewise/transformations.py
@@ -99,7 +99,7 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
         event_rate_special = np.zeros(n_special)
         n_records_special = n_event_special + n_nonevent_special
 
-        mask = (n_event_special > 0) & (n_nonevent_special > 0)
+        mask = (n_records_special > 0)
 
         if n_special > 1:
             event_rate_special[mask] = (
@@ -108,8 +108,11 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_special = n_event_special / n_records_special
 
         if metric == "woe":
-            event_rate_special = transform_event_rate_to_woe(
-                event_rate_special, n_nonevent, n_event)
+            # WoE is zero without events or non-events
+            mask = (n_event_special > 0) & (n_nonevent_special > 0)
+            event_rate_special = np.where(mask, transform_event_rate_to_woe(
+                np.where(mask, event_rate_special, 0.5), n_nonevent, n_event),
+                0)
 
     if metric_missing == "empirical":
         n_records_missing = n_event_missing + n_nonevent_missing
@@ -120,8 +123,12 @@ def transform_binary_target(splits, x, c, lb, ub, n_nonevent, n_event,
             event_rate_missing = 0
 
         if metric == "woe":
-            event_rate_missing = transform_event_rate_to_woe(
-                event_rate_missing, n_nonevent, n_event)
+            # WoE is zero without events or non-events
+            if n_event_missing > 0 and n_nonevent_missing > 0:
+                event_rate_missing = transform_event_rate_to_woe(
+                    event_rate_missing, n_nonevent, n_event)
+            else:
+                event_rate_missing = 0
 
     x_transform = _apply_transform(
         x, c, lb, ub, special_codes, metric_special, metric_missing,
-- 
2.43.0


From 7e2f5fd8cefba8eb6915631cb584d5f068afd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 70/81] fix: piecewise binning does not fit the estimator of
 the caller

---
 optbinning/binning/piecewise/binning.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 65d5a22..92de48e 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -9,6 +9,7 @@ import time
 
 import numpy as np
 
+from sklearn.base import clone
 from sklearn.linear_model import LogisticRegression
 
 from ...binning.binning_statistics import target_info
@@ -365,6 +366,9 @@ class OptimalPWBinning(BasePWBinning):
             if self.verbose:
                 logger.info("Pre-binning: set logistic regression as an "
                             "estimator.")
+        else:
+            # The estimator of the user is not modified
+            estimator = clone(estimator, safe=False)
 
         if self.verbose:
             logger.info("Pre-binning: estimator fitting started.")
-- 
2.43.0


From c4c6a3582f44d5aba46489d0bf4192fd662c8072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 71/81] fix: bayesian probability does not draw from the global
 random state

---
 optbinning/binning/metrics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/optbinning/binning/metrics.py b/optbinning/binning/metrics.py
index e0220ce..4a8dbda 100644
--- a/optbinning/binning/metrics.py
+++ b/optbinning/binning/metrics.py
@@ -297,7 +297,6 @@ def bayesian_probability(obs, n_samples):
     aA, aB, bA, bB = obs.ravel()
 
     r = np.arange(1, n_samples + 1)
-    np.random.shuffle(r)
     v = (r - 0.5) / n_samples
 
     p = special.betainc(aA, bA, stats.beta(aB, bB).ppf(v)).mean()
-- 
2.43.0


From c23cd85173ef185310fe51d07eca38a466cff747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:07 +0000
Subject: [PATCH 72/81] fix: peak and valley trends of continuous targets with
 means of both signs

---
 optbinning/binning/continuous_cp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/continuous_cp.py b/optbinning/binning/continuous_cp.py
index 4511569..3a98356 100644
--- a/optbinning/binning/continuous_cp.py
+++ b/optbinning/binning/continuous_cp.py
@@ -185,7 +185,9 @@ class ContinuousBinningCP(BinningCP):
                         ).OnlyEnforceIf([x[k, k], x[j, j], x[i, i]])
 
     def add_constraint_monotonic_peak(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        means = [U[i][j] for i in range(n) for j in range(i + 1)]
+        M = max(means) - min(means)
+
         for i in range(1, n):
             for z in range(i):
                 model.Add(
@@ -205,7 +207,9 @@ class ContinuousBinningCP(BinningCP):
                     U[z][z] * x[z, z] >= 0).OnlyEnforceIf([x[z, z], x[i, i]])
 
     def add_constraint_monotonic_valley(self, model, n, U, x, y):
-        M = max([abs(U[i][j]) for i in range(n) for j in range(i + 1)])
+        means = [U[i][j] for i in range(n) for j in range(i + 1)]
+        M = max(means) - min(means)
+
         for i in range(1, n):
             for z in range(i):
                 model.Add(
-- 
2.43.0


From 15f0e0ac829e5ef9c9cc8843e1e3b11fa0fc06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:17 +0000
Subject: [PATCH 73/81] fix: two-dimensional binning with candidate rectangles
 of the same size

---
 optbinning/binning/multidimensional/binning_2d.py            | 4 ++--
 optbinning/binning/multidimensional/continuous_binning_2d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index f19e284..b6bdf35 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -698,12 +698,12 @@ class OptimalBinning2D(OptimalBinning):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [rows[i] for i in np.flatnonzero(self._solution)]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_n_nonevent = np.empty(n_selected_rows, dtype=int)
         opt_n_event = np.empty(n_selected_rows, dtype=int)
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 9e499d7..01defb0 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -623,12 +623,12 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         D = np.empty(m * n, dtype=float)
         P = np.empty(m * n, dtype=int)
 
-        selected_rows = np.array(rows, dtype=object)[self._solution]
+        selected_rows = [rows[i] for i in np.flatnonzero(self._solution)]
 
         self._selected_rows = selected_rows
         self._m, self._n = m, n
 
-        n_selected_rows = selected_rows.shape[0] + 2
+        n_selected_rows = len(selected_rows) + 2
 
         opt_sums = np.empty(n_selected_rows, dtype=float)
         opt_n_records = np.empty(n_selected_rows, dtype=int)
-- 
2.43.0


From 8f2342c6b8a4a9ba89a97210d43f1ba2baa19f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 74/81] fix: two-dimensional binning without a solution has a
 single bin

---
 optbinning/binning/multidimensional/binning_2d.py    | 10 +++++++++-
 .../multidimensional/continuous_binning_2d.py        | 12 +++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index b6bdf35..1d5e55f 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -692,7 +692,8 @@ class OptimalBinning2D(OptimalBinning):
 
         # Refinements
         m, n = E.shape
-        self._n_refinements = (m * n * (m + 1) * (n + 1)) // 4 - len(rows)
+        self._n_refinements = (m * n * (m + 1) * (n + 1)) // 4 - len(
+            self._rows)
 
         # solution matrices
         D = np.empty(m * n, dtype=float)
@@ -919,6 +920,13 @@ class OptimalBinning2D(OptimalBinning):
         self._rows = rows
         self._c = c
 
+        if not solution.any():
+            # No solution was found: a single bin with all records
+            rows = [list(range(n_grid))]
+            n_nonevent = np.array([NE.sum()])
+            n_event = np.array([E.sum()])
+            self._solution = np.array([True])
+
         return rows, n_nonevent, n_event
 
     def _splits_xy_optimal(self, selected_rows, splits_x, splits_y, P):
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 01defb0..402604b 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -617,7 +617,8 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
 
         # Refinements
         m, n = R.shape
-        self._n_refinements = (m * n * (m + 1) * (n + 1)) // 4 - len(rows)
+        self._n_refinements = (m * n * (m + 1) * (n + 1)) // 4 - len(
+            self._rows)
 
         # solution matrices
         D = np.empty(m * n, dtype=float)
@@ -839,4 +840,13 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
         self._rows = rows
         self._c = c
 
+        if not solution.any():
+            # No solution was found: a single bin with all records
+            rows = [list(range(n_grid))]
+            n_records = np.array([R.sum()])
+            sums = np.array([S.sum()])
+            stds = np.sqrt(np.array([SS.sum()]) / n_records -
+                           (sums / n_records) ** 2)
+            self._solution = np.array([True])
+
         return rows, n_records, sums, stds
-- 
2.43.0


From ba302d79d519fe9c4ef2d4b86818a777fed71502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:23 +0000
Subject: [PATCH 75/81] fix: counterfactuals with special bins use the metrics
 of the scorecard

---
 .../scorecard/counterfactual/model_data.py    | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/optbinning/scorecard/counterfactual/model_data.py b/optbinning/scorecard/counterfactual/model_data.py
index f6abc68..390fcb9 100644
--- a/optbinning/scorecard/counterfactual/model_data.py
+++ b/optbinning/scorecard/counterfactual/model_data.py
@@ -5,6 +5,8 @@ Counterfactual model data.
 # Guillermo Navas-Palencia <g.navas.palencia@gmail.com>
 # Copyright (C) 2021
 
+import numpy as np
+
 
 def model_data(scorecard, x, special_missing):
     s_vars = scorecard.binning_process_.get_support(names=True)
@@ -17,16 +19,22 @@ def model_data(scorecard, x, special_missing):
     metric = []
     indices = []
     for i, v in enumerate(s_vars):
-        metric_i = sc[sc.Variable == v][metric_name].values
+        metric_i = np.array(sc[sc.Variable == v][metric_name], dtype=float)
 
-        if not special_missing:
-            optb = scorecard.binning_process_.get_binned_variable(v)
-            if isinstance(optb.special_codes, dict):
-                n_specials = len(optb.special_codes)
-            else:
-                n_specials = 1
+        optb = scorecard.binning_process_.get_binned_variable(v)
+        if isinstance(optb.special_codes, dict):
+            n_specials = len(optb.special_codes)
+        else:
+            n_specials = 1
 
+        if not special_missing:
             metric_i = metric_i[:-(n_specials + 1)]
+        else:
+            # Metrics used by the scorecard for special and missing bins
+            if scorecard._metric_special != 'empirical':
+                metric_i[-(n_specials + 1):-1] = scorecard._metric_special
+            if scorecard._metric_missing != 'empirical':
+                metric_i[-1] = scorecard._metric_missing
 
         _metric = []
         _indices = []
-- 
2.43.0


From 6a6669ac4043d839c928579dac0a9ae5bc526b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:42 +0000
Subject: [PATCH 76/81] fix: trends with equal consecutive values are reported
 as ascending or descending

---
 optbinning/binning/auto_monotonic.py | 33 ++++++++++++++--------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/optbinning/binning/auto_monotonic.py b/optbinning/binning/auto_monotonic.py
index 70102a5..57e92cc 100644
--- a/optbinning/binning/auto_monotonic.py
+++ b/optbinning/binning/auto_monotonic.py
@@ -418,21 +418,22 @@ def type_of_monotonic_trend(x):
     if len(x) == 1:
         return "undefined"
 
-    if n_peaks_valleys(x) >= 1:
-        if _is_peak(x):
-            if _is_concave(x):
-                return "peak (concave)"
-            else:
-                return "peak"
-        elif _is_valley(x):
-            if _is_convex(x):
-                return "valley (convex)"
-            else:
-                return "valley"
+    # Equal consecutive values do not break an ascending or descending trend
+    diff = x[1:] - x[:-1]
+
+    if np.all(diff >= 0):
+        return "ascending"
+    elif np.all(diff <= 0):
+        return "descending"
+    elif _is_peak(x):
+        if _is_concave(x):
+            return "peak (concave)"
         else:
-            return "no monotonic"
-    else:
-        if np.all((x[1:] - x[:-1]) >= 0):
-            return "ascending"
+            return "peak"
+    elif _is_valley(x):
+        if _is_convex(x):
+            return "valley (convex)"
         else:
-            return "descending"
+            return "valley"
+    else:
+        return "no monotonic"
-- 
2.43.0


From b72d7f08fa82fdf93e6bb317c50b64bab9e7f7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:29 +0000
Subject: [PATCH 77/81] fix: variable stability counts special and missing
 records in their own bins

The bins of the variables were computed with the records with special and
missing values transformed to zero, so they were counted in the first bin.
Bins without records in either data set do not contribute to the PSI.
---
 optbinning/scorecard/monitoring.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index f424f21..e59d91a 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -781,8 +781,13 @@ class ScorecardMonitoring(BaseEstimator):
 
         for name in variables:
             optb = self.scorecard.binning_process_.get_binned_variable(name)
-            ta = optb.transform(X_actual[name], metric="indices")
-            te = optb.transform(X_expected[name], metric="indices")
+            # Special and missing values have their own bins
+            ta = optb.transform(X_actual[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
+            te = optb.transform(X_expected[name], metric="indices",
+                                metric_special="empirical",
+                                metric_missing="empirical")
 
             n_bins = max(ta.max(), te.max()) + 1
 
@@ -798,7 +803,11 @@ class ScorecardMonitoring(BaseEstimator):
             p_records_a = n_records_a / t_n_records_a
             p_records_e = n_records_e / t_n_records_e
 
-            psi = jeffrey(p_records_a, p_records_e, return_sum=False)
+            # Bins without records do not contribute
+            psi = np.zeros(n_bins)
+            mask = (n_records_a > 0) | (n_records_e > 0)
+            psi[mask] = jeffrey(p_records_a[mask], p_records_e[mask],
+                                return_sum=False)
             bins = sc_table[sc_table.Variable == name]["Bin"].values[:n_bins]
 
             df_psi = pd.DataFrame({
-- 
2.43.0


From a65436d573036ff37eee2ae058edd37651a36216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:37 +0000
Subject: [PATCH 78/81] fix: the chi-square test of stability handles score
 bins with one class

stats.chi2_contingency raises ValueError when a class has no records in a
score bin of both data sets, or when a data set has no records in it.
---
 optbinning/scorecard/monitoring.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index e59d91a..a09efe8 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -619,7 +619,14 @@ class ScorecardMonitoring(BaseEstimator):
                 [n_nonevent_a[i], n_nonevent_e[i]],
                 [n_event_a[i], n_event_e[i]]])
 
-            t, p, _, _ = stats.chi2_contingency(obs, correction=False)
+            if n_records_a[i] == 0 or n_records_e[i] == 0:
+                # The test is not defined without records
+                t, p = np.nan, np.nan
+            elif np.any(obs.sum(axis=1) == 0):
+                # Both event rates are 0 or both are 1
+                t, p = 0.0, 1.0
+            else:
+                t, p, _, _ = stats.chi2_contingency(obs, correction=False)
 
             t_statistics.append(t)
             p_values.append(p)
-- 
2.43.0


From 1179c83ccbe48583868ceaac6c0fe17d02547a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:37 +0000
Subject: [PATCH 79/81] fix: a failed refit leaves the object unfitted

An object fitted before reported itself as fitted after a second fit that
failed halfway, with the options of one fit and results of both.
---
 optbinning/binning/binning.py                                | 1 +
 optbinning/binning/binning_process.py                        | 1 +
 optbinning/binning/continuous_binning.py                     | 1 +
 optbinning/binning/distributed/binning_process_sketch.py     | 3 +++
 optbinning/binning/distributed/binning_sketch.py             | 3 +++
 optbinning/binning/mdlp.py                                   | 1 +
 optbinning/binning/multiclass_binning.py                     | 1 +
 optbinning/binning/multidimensional/binning_2d.py            | 3 +++
 optbinning/binning/multidimensional/continuous_binning_2d.py | 3 +++
 optbinning/binning/outlier.py                                | 1 +
 optbinning/binning/piecewise/binning.py                      | 3 +++
 optbinning/binning/piecewise/continuous_binning.py           | 3 +++
 optbinning/scorecard/counterfactual/counterfactual.py        | 3 +++
 optbinning/scorecard/monitoring.py                           | 3 +++
 optbinning/scorecard/scorecard.py                            | 3 +++
 15 files changed, 33 insertions(+)

diff --git a/optbinning/binning/binning.py b/optbinning/binning/binning.py
index aa1a1ff..69fe8f8 100644
--- a/optbinning/binning/binning.py
+++ b/optbinning/binning/binning.py
@@ -702,6 +702,7 @@ class OptimalBinning(BaseOptimalBinning):
                                   self._n_refinements, dict_user_options)
 
     def _reset(self):
+        self._is_fitted = False
         self._flag_min_n_event_nonevent = False
         self._n_nonevent_cat_others = None
         self._n_event_cat_others = None
diff --git a/optbinning/binning/binning_process.py b/optbinning/binning/binning_process.py
index b12601c..455d21f 100644
--- a/optbinning/binning/binning_process.py
+++ b/optbinning/binning/binning_process.py
@@ -1068,6 +1068,7 @@ class BinningProcess(Base, BaseEstimator, BaseBinningProcess):
             self._is_updated = False
 
     def _reset(self):
+        self._is_fitted = False
         self._binned_variables = {}
         self._variable_dtypes = {}
         self._variable_stats = {}
diff --git a/optbinning/binning/continuous_binning.py b/optbinning/binning/continuous_binning.py
index 5a5562a..42c1425 100644
--- a/optbinning/binning/continuous_binning.py
+++ b/optbinning/binning/continuous_binning.py
@@ -550,6 +550,7 @@ class ContinuousOptimalBinning(OptimalBinning):
                                            check_input)
 
     def _reset(self):
+        self._is_fitted = False
         self._std_missing = None
         self._min_target_missing = None
         self._max_target_missing = None
diff --git a/optbinning/binning/distributed/binning_process_sketch.py b/optbinning/binning/distributed/binning_process_sketch.py
index 14786b2..f1deeda 100644
--- a/optbinning/binning/distributed/binning_process_sketch.py
+++ b/optbinning/binning/distributed/binning_process_sketch.py
@@ -419,6 +419,9 @@ class BinningProcessSketch(BaseSketch, BaseEstimator, BaseBinningProcess):
             raise NotDataAddedError(
                 "No data was added. Add data before solving.")
 
+        # Remove information from previous solve
+        self._is_solved = False
+
         for i, name in enumerate(self.variable_names):
             if self.verbose:
                 logger.info("Binning variable ({} / {}): {}."
diff --git a/optbinning/binning/distributed/binning_sketch.py b/optbinning/binning/distributed/binning_sketch.py
index 32924a5..27a7582 100644
--- a/optbinning/binning/distributed/binning_sketch.py
+++ b/optbinning/binning/distributed/binning_sketch.py
@@ -580,6 +580,9 @@ class OptimalBinningSketch(BaseSketch, BaseEstimator):
         if not self._n_add:
             raise NotFittedError("No data was added. Add data before solving.")
 
+        # Remove information from previous solve
+        self._is_solved = False
+
         # Pre-binning
         if self.verbose:
             logger.info("Pre-binning started.")
diff --git a/optbinning/binning/mdlp.py b/optbinning/binning/mdlp.py
index 1611d9f..875f95b 100644
--- a/optbinning/binning/mdlp.py
+++ b/optbinning/binning/mdlp.py
@@ -107,6 +107,7 @@ class MDLP(BaseEstimator):
         y = y[idx]
 
         self._splits = []
+        self._is_fitted = False
         self._recurse(x, y, 0)
 
         self._is_fitted = True
diff --git a/optbinning/binning/multiclass_binning.py b/optbinning/binning/multiclass_binning.py
index 998afb9..c878e42 100644
--- a/optbinning/binning/multiclass_binning.py
+++ b/optbinning/binning/multiclass_binning.py
@@ -495,6 +495,7 @@ class MulticlassOptimalBinning(OptimalBinning):
                                            check_input)
 
     def _reset(self):
+        self._is_fitted = False
         self._user_splits_idx = None
         self._user_splits_fixed = None
         self._n_refinements = 0
diff --git a/optbinning/binning/multidimensional/binning_2d.py b/optbinning/binning/multidimensional/binning_2d.py
index 1d5e55f..3658143 100644
--- a/optbinning/binning/multidimensional/binning_2d.py
+++ b/optbinning/binning/multidimensional/binning_2d.py
@@ -564,6 +564,9 @@ class OptimalBinning2D(OptimalBinning):
 
         _check_parameters(**self.get_params())
 
+        # Remove information from previous fit
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/multidimensional/continuous_binning_2d.py b/optbinning/binning/multidimensional/continuous_binning_2d.py
index 402604b..afd0198 100644
--- a/optbinning/binning/multidimensional/continuous_binning_2d.py
+++ b/optbinning/binning/multidimensional/continuous_binning_2d.py
@@ -489,6 +489,9 @@ class ContinuousOptimalBinning2D(OptimalBinning2D):
 
         _check_parameters(**self.get_params())
 
+        # Remove information from previous fit
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/outlier.py b/optbinning/binning/outlier.py
index 1537fb1..211b3d8 100644
--- a/optbinning/binning/outlier.py
+++ b/optbinning/binning/outlier.py
@@ -34,6 +34,7 @@ class OutlierDetector:
         -------
         self : OutlierDetector
         """
+        self._is_fitted = False
         self._fit(x, y)
 
         return self
diff --git a/optbinning/binning/piecewise/binning.py b/optbinning/binning/piecewise/binning.py
index 92de48e..43cb123 100644
--- a/optbinning/binning/piecewise/binning.py
+++ b/optbinning/binning/piecewise/binning.py
@@ -314,6 +314,9 @@ class OptimalPWBinning(BasePWBinning):
         _check_parameters(**self.get_params(deep=False),
                           problem_type=self._problem_type)
 
+        # Remove information from previous fit
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/binning/piecewise/continuous_binning.py b/optbinning/binning/piecewise/continuous_binning.py
index f9d8f6b..6ae225d 100644
--- a/optbinning/binning/piecewise/continuous_binning.py
+++ b/optbinning/binning/piecewise/continuous_binning.py
@@ -296,6 +296,9 @@ class ContinuousOptimalPWBinning(BasePWBinning):
         _check_parameters(**self.get_params(deep=False), estimator=None,
                           problem_type=self._problem_type)
 
+        # Remove information from previous fit
+        self._is_fitted = False
+
         # Pre-processing
         if self.verbose:
             logger.info("Pre-processing started.")
diff --git a/optbinning/scorecard/counterfactual/counterfactual.py b/optbinning/scorecard/counterfactual/counterfactual.py
index 0fd300e..d0d2cc7 100644
--- a/optbinning/scorecard/counterfactual/counterfactual.py
+++ b/optbinning/scorecard/counterfactual/counterfactual.py
@@ -262,6 +262,9 @@ class Counterfactual(BaseCounterfactual):
 
         _check_parameters(**self.get_params(deep=False))
 
+        # Remove information from previous fit
+        self._is_fitted = False
+
         if not isinstance(X, pd.DataFrame):
             raise TypeError("X must be a pandas.DataFrame.")
 
diff --git a/optbinning/scorecard/monitoring.py b/optbinning/scorecard/monitoring.py
index a09efe8..345fd99 100644
--- a/optbinning/scorecard/monitoring.py
+++ b/optbinning/scorecard/monitoring.py
@@ -253,6 +253,9 @@ class ScorecardMonitoring(BaseEstimator):
         # Check parameters
         _check_parameters(**self.get_params(deep=False))
 
+        # Remove information from previous fit
+        self._is_fitted = False
+
         # Check if scorecard is fitted
         self.scorecard._check_is_fitted()
 
diff --git a/optbinning/scorecard/scorecard.py b/optbinning/scorecard/scorecard.py
index dc2fcd4..6049c70 100644
--- a/optbinning/scorecard/scorecard.py
+++ b/optbinning/scorecard/scorecard.py
@@ -502,6 +502,9 @@ class Scorecard(Base, BaseEstimator):
 
         _check_parameters(**self.get_params(deep=False))
 
+        # Remove information from previous fit
+        self._is_fitted = False
+
         # Check X dtype
         if not isinstance(X, pd.DataFrame):
             raise TypeError("X must be a pandas.DataFrame.")
-- 
2.43.0


From ce7223451cc0aaa063353603f57f90d3fb531f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:37 +0000
Subject: [PATCH 80/81] fix: the KS statistic counts records of equal score
 together

With ties the statistic depended on the order of the records: a constant
score had a KS of one for data sorted by class.
---
 optbinning/metrics/classification.py | 5 ++++-
 optbinning/scorecard/plots.py        | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/optbinning/metrics/classification.py b/optbinning/metrics/classification.py
index 9948ebf..8fbedf3 100644
--- a/optbinning/metrics/classification.py
+++ b/optbinning/metrics/classification.py
@@ -52,6 +52,7 @@ def ks(y_true, y_pred_proba):
 
     idx = np.argsort(y_pred_proba)
     yy = y_true[idx]
+    pp = np.asarray(y_pred_proba)[idx]
 
     cum_event = np.cumsum(yy)
     cum_population = np.arange(1, n_samples + 1)
@@ -60,7 +61,9 @@ def ks(y_true, y_pred_proba):
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
+    # Records with the same score are on the same side of any threshold
+    last = np.append(pp[1:] != pp[:-1], True)
+    p_diff = np.where(last, p_nonevent - p_event, -1)
     ks_max_idx = np.argmax(p_diff)
     ks_score = p_diff[ks_max_idx]
 
diff --git a/optbinning/scorecard/plots.py b/optbinning/scorecard/plots.py
index e72df9e..34a4417 100644
--- a/optbinning/scorecard/plots.py
+++ b/optbinning/scorecard/plots.py
@@ -227,7 +227,9 @@ def plot_ks(y, y_pred, title=None, xlabel=None, ylabel=None,
     p_event = cum_event / n_event
     p_nonevent = cum_nonevent / n_nonevent
 
-    p_diff = p_nonevent - p_event
+    # Records with the same score are on the same side of any threshold
+    last = np.append(pp[1:] != pp[:-1], True)
+    p_diff = np.where(last, p_nonevent - p_event, -1)
     ks_score = np.max(p_diff)
     ks_max_idx = np.argmax(p_diff)
 
-- 
2.43.0


From 0b48e8529d5b0e236429b04b1524d71e83f88157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:08 +0000
Subject: [PATCH 81/81] fix: post-processing share of the counterfactual report
 is of the total time

All other shares of the report are of the total time; the share could
exceed 100%.
---
 .../scorecard/counterfactual/counterfactual_information.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optbinning/scorecard/counterfactual/counterfactual_information.py b/optbinning/scorecard/counterfactual/counterfactual_information.py
index 516e731..0c8e81c 100644
--- a/optbinning/scorecard/counterfactual/counterfactual_information.py
+++ b/optbinning/scorecard/counterfactual/counterfactual_information.py
@@ -38,7 +38,7 @@ def print_objectives(objectives):
 def print_timing(time_total, time_fit, time_solver, time_postprocessing):
     p_fit = time_fit / time_total
     p_solver = time_solver / time_total
-    p_postprocessing = time_postprocessing / time_solver
+    p_postprocessing = time_postprocessing / time_total
 
     time_stats = (
         "  Timing\n"
-- 
2.43.0

