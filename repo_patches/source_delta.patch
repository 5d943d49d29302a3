From a4590254a47a450b7068ce3276543531a45c663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 01/29] fix: evaluate the truncated gamma CDF at the threshold
 in parallel runs

The worker used the literal list [3] instead of the fourth element of its input.
---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From 5ed4582e9059aff9ff125a8a3bf4e32837f8aea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 02/29] fix: rank histogram with NaN skipping (np.float no
 longer exists)

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From 7acf10cbd72a54a8648e0c5dedb25ee84d45504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 03/29] fix: break ties in rank histograms when every cell is
 tied

The loop skipped the smallest tie count, assuming that it is always zero.
---
 PyAnEn/utils_verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..e94af77 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -35,10 +35,10 @@ def rankdata(x):
     # Check for ties
     ties = np.nansum(ranks[0] == ranks[1:], axis=0)
     unique_tie = np.unique(ties)
-    unique_tie = unique_tie[~np.isnan(unique_tie)]
+    unique_tie = unique_tie[unique_tie > 0]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From e74cec1d866e9e01b7f13abca7a161a22083a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 04/29] fix: gamma CRPS of sharp forecasts (overflow of the
 gamma function)

The log beta function was computed from gamma(x), which overflows above 171, i.e. for mu/sigma > 13.
---
 PyAnEn/utils_crps.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index ed8541e..8887d42 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,9 +23,7 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = np.log(special.gamma(x1)) + np.log(special.gamma(x2))
-    log_gamma_sum_x = np.log(special.gamma(x1 + x2))
-    return log_prod_gamma_x - log_gamma_sum_x
+    return special.betaln(x1, x2)
 
 
 def crps_gamma(mu, sigma, shift, obs, reduce_sum=True):
-- 
2.43.0


From 783323179b005971750641f9ece088e96795a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 05/29] fix: collapse the ensemble again when its axis or
 collapse function changes

---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From 538f548bc404545506a2cb9847093798b0d28aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 06/29] fix: spread and ranks of sampled forecasts use the
 sampled axis

They always used the last axis, even when the members were moved elsewhere.
---
 PyAnEn/VerifyProb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..3768294 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,14 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=self.move_sampled_ens_axis) - np.nanmin(ens, axis=self.move_sampled_ens_axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=self.move_sampled_ens_axis) - np.min(ens, axis=self.move_sampled_ens_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From 2888946ce8bcc136403e68cd39661adf537a3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 07/29] fix: save results atomically

A run killed (or a disk filling up) while saving left a truncated file that made every later run fail.
---
 PyAnEn/Verify.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..c30b5da 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -14,6 +14,7 @@
 import os
 import shutil
 import pickle
+import tempfile
 
 import numpy as np
 
@@ -230,8 +231,19 @@ class Verify:
     def _save(self, name, arr):
         if self.working_directory and isinstance(name, str):
             path = os.path.join(self.working_directory, name + '.pkl')
-            with open(path, 'wb') as f:
-                pickle.dump(arr, f)
+            
+            # Write to a temporary file first so that an interrupted run or a concurrent reader
+            # never sees a partial result under the final name
+            #
+            fd, tmp_path = tempfile.mkstemp(dir=self.working_directory, suffix='.tmp')
+            
+            try:
+                with os.fdopen(fd, 'wb') as f:
+                    pickle.dump(arr, f)
+                os.replace(tmp_path, path)
+            except BaseException:
+                os.remove(tmp_path)
+                raise
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From 3bfa094d6b1484fc76ed6024aa1dc34e5bc8c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 08/29] fix: restore settings, scratch file and Ray when an
 integration fails

---
 PyAnEn/utils_approximation.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..ae2d880 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -224,12 +224,15 @@ class Integration:
     def _workflow(self, func):
         
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
         
-        return ret
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            return func()
+        finally:
+            # Leave nothing behind even if the calculation failed
+            if self.cores != 1: ray.shutdown()
+            self._finalize_memmap()
+            self._resume_sublevel_tqdm()
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
@@ -248,9 +251,10 @@ class Integration:
     
     def _finalize_memmap(self):
         if self.less_memory:
-            del self.memmap_arr_r
+            self.memmap_arr_r = None
             
-            os.remove(self.memmap_arr_str)
+            if self.memmap_arr_str is not None and os.path.exists(self.memmap_arr_str):
+                os.remove(self.memmap_arr_str)
             
             self.memmap_arr_str = None
             self.memmap_shape = None
-- 
2.43.0


From ce4c499cc55f940f19482ab308d7d9819cc0f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 09/29] fix: give each integration its own scratch file

---
 PyAnEn/utils_approximation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index ae2d880..d7def1a 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -16,6 +16,7 @@
 
 import os
 import ray
+import tempfile
 
 import numpy as np
 
@@ -236,7 +237,9 @@ class Integration:
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
-            self.memmap_arr_str = os.path.join(self.memmap_dir, '__pyanen_numerical_integration__.dat')
+            # Use a unique file so that integrations sharing a directory do not overwrite each other
+            fd, self.memmap_arr_str = tempfile.mkstemp(prefix='__pyanen_numerical_integration__', suffix='.dat', dir=self.memmap_dir)
+            os.close(fd)
             self.memmap_shape = memmap_shape
             
             self.memmap_arr_w = np.memmap(
-- 
2.43.0


From b7176858c25846a09d0c406870e02f8b51975b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 10/29] fix: accept axes counted from the end everywhere

Mixing them with other axes sampled the wrong dimensions when bootstrapping, and correlation and Brier decomposition refused them.
---
 PyAnEn/utils_special_boot.py | 2 +-
 PyAnEn/utils_ss.py           | 1 +
 PyAnEn/utils_verify.py       | 3 +++
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..25cfb7d 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -152,7 +152,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [axis % len(o.shape) for axis in avg_axis]
     
     # Calculate the output shape indices
     out_shape = list(set(range(len(o.shape))) - set(avg_axis))
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..06de3d1 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -51,6 +51,7 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     
     assert variance.shape == sq_error.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
+    sample_axis = [axis % len(variance.shape) for axis in sample_axis]
 
     # Move sample axis to the beginning
     to_axis = 0
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e94af77..b3c4d1c 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -258,6 +258,8 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     if sample_axis is None:
         sample_axis = list(range(len(metric.shape)))
     
+    sample_axis = [axis % len(metric.shape) for axis in sample_axis]
+    
     # Move sample axis to the beginning
     to_axis = 0
 
@@ -300,6 +302,7 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
 
     assert f_prob.shape == o_binary.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
+    sample_axis = [axis % len(o_binary.shape) for axis in sample_axis]
 
     # Move sample axis to the beginning
     to_axis = 0
-- 
2.43.0


From fd0043d3d5355a4a78ae5b4659754469c199cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 11/29] fix: do not sort the input of the spread-skill
 calculation in place

---
 PyAnEn/utils_ss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 06de3d1..a0507d6 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -65,8 +65,10 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     shape_to_keep = variance.shape[to_axis:]
     
     # Flatten the sample dimensions and the kept dimensions separately
-    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int))
-    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
+    # (copies, because they are going to be sorted in place)
+    #
+    variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
+    sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int)).copy()
     
     # Sort arrays based on variance 
     for i in range(variance.shape[1]):
-- 
2.43.0


From 932fdfddbd19d1bc3f59449ab5ef1f49493e27c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 12/29] fix: do not reuse saved results of other averaging axes
 or bootstrap settings

Results that depend on them (IOU, reliability, spread-skill; correlation and Brier decomposition when named) now carry them in their name.
---
 PyAnEn/Verify.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index c30b5da..4810fe9 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -60,16 +60,16 @@ class Verify:
     # Metric Methods #
     ##################
     
-    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name), self._corr)
-    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._brier_decomp, over=over, below=below)
+    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name, axis=self.avg_axis, boot=self.boot_samples), self._corr)
+    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, axis=self.avg_axis, boot=self.boot_samples), self._brier_decomp, over=over, below=below)
     
     def rank_hist(self, save_name='rank'): return self._metric_workflow_1(self.to_name(save_name), self._rank_hist)
     def variance(self, save_name='variance'): return self._metric_workflow_1(self.to_name(save_name), self._variance)
     def f_determ(self, save_name='f_determ'): return self._metric_workflow_1(self.to_name(save_name), self._f_determ)
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
-    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_prob, over=over, below=below)
+    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, axis=self.avg_axis), self._iou_determ, over=over, below=below)
+    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
@@ -79,8 +79,8 @@ class Verify:
     def ab_error(self, save_name='ab_error'): return self._metric_workflow_2(self.to_name(save_name), self._ab_error)
     def brier(self, over=None, below=None, save_name='brier'): return self._metric_workflow_2(self.to_name(save_name, over=over, below=below), self._brier, over=over, below=below)
     
-    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
-    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
+    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below, axis=self.avg_axis), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
+    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, axis=self.avg_axis), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
 
     def rmse(self, save_name='sq_error'): return np.sqrt(self.sq_error(save_name=save_name))
     
-- 
2.43.0


From e39346d064b98f25a6a82f77adbca2b38d490f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 13/29] fix: distinguish saved results of nearly equal
 threshold arrays

The name used the printed form of the array, which rounds to eight digits.
---
 PyAnEn/Verify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 4810fe9..a15712f 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -156,6 +156,9 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
+            # Numpy abbreviates numbers when printing
+            if isinstance(v, np.ndarray): v = v.tolist()
+            
             strs[k] = str(v).replace(' ', '_')
         
         return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
-- 
2.43.0


From a3bdb3e77604ae7a3cf3f63706ac46e35d91ccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 14/29] fix: reliability index compares with the uniform
 frequency

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index a15712f..420e351 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -95,7 +95,7 @@ class Verify:
         if freqs_sum != 1:
             freqs = freqs / freqs_sum
             
-        return np.sum(np.abs(freqs - 1 / np.arange(2, len(freqs) + 2)))
+        return np.sum(np.abs(freqs - 1 / len(freqs)))
     
     ##########################
     # Postprocessing Methods #
-- 
2.43.0


From b53be41b2e85f9fc7e480e3685f931f4648e2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 15/29] fix: bootstrap intervals cover the configured
 confidence everywhere

All but the plain score bootstrap cut (1 - confidence) off each end: 90% intervals for 0.95, reversed ones below 0.5.
---
 PyAnEn/utils_special_boot.py | 20 ++++++++++++--------
 PyAnEn/utils_ss.py           |  5 +++--
 PyAnEn/utils_verify.py       |  5 +++--
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 25cfb7d..a117053 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -95,19 +95,21 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             resolution.append(ret[1])
             uncertainty.append(ret[2])
         
+        delta = (1-confidence) / 2
+        
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [delta, 1-delta])
+            ci_res = np.nanquantile(resolution, [delta, 1-delta])
+            ci_unc = np.nanquantile(uncertainty, [delta, 1-delta])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [delta, 1-delta])
+            ci_res = np.quantile(resolution, [delta, 1-delta])
+            ci_unc = np.quantile(uncertainty, [delta, 1-delta])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -130,11 +132,13 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             indices = np.random.choice(list(range(len(f_slice))), size=n_samples, replace=True)
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
+        delta = (1-confidence) / 2
+        
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [delta, 1-delta])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [delta, 1-delta])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index a0507d6..ff72c7d 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -162,8 +162,9 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            delta = (1-confidence) / 2
+            variance_ci = np.quantile(variances, [delta, 1-delta])
+            mse_ci = np.quantile(mses, [delta, 1-delta])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index b3c4d1c..90f17f6 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -413,10 +413,11 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            delta = (1-confidence) / 2
+            ci = np.quantile(sample_probs, [delta, 1-delta])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [delta, 1-delta])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From 20a0eaa1c0cdaa7f5cb795002a1c9ca8433a55bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 16/29] fix: skip NaN pairs in the bootstrapped correlation too

---
 PyAnEn/utils_special_boot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index a117053..fe62a45 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -118,12 +118,12 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
 
 def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
     
+    if skip_nan:
+        mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+        f_slice, o_slice = f_slice[mask], o_slice[mask]
+    
     if n_samples is None:
-        if skip_nan:
-            mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
-            return np.corrcoef(f_slice[mask], o_slice[mask])[0, 1]
-        else:
-            return np.corrcoef(f_slice, o_slice)[0, 1]
+        return np.corrcoef(f_slice, o_slice)[0, 1]
     
     else:
         corr = []
-- 
2.43.0


From 2a1e7d9181c231957f37380d9460cadf86bbebfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:04 +0000
Subject: [PATCH 17/29] fix: check the shapes of hurdle forecasts like the
 other classes do

---
 PyAnEn/VerifyProbGammaHurdle.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index b70ce3c..ca4e136 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -58,6 +58,14 @@ class VerifyProbGammaHurdle(VerifyProb):
         assert 'pop' in self.f.keys()
         assert 'mu' in self.f.keys()
         assert 'sigma' in self.f.keys()
+        
+        # Check dimensions
+        o_shape = list(self.o.shape)
+        
+        for k in ['pop', 'mu', 'sigma']:
+            f_shape = list(self.f[k].shape)
+            assert f_shape == o_shape, 'Shape mismatch: f[{}] ({}) and o ({})'.format(k, f_shape, o_shape)
+        
         assert isinstance(self.n_approx_bins, int)
         
         if self.integration_range is not None:
-- 
2.43.0


From 4a9ef1ea621bbce45c4de72b7570bba208029af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:27 +0000
Subject: [PATCH 18/29] fix: atomically saved results keep ordinary file
 permissions

---
 PyAnEn/Verify.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 420e351..e15bf89 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -13,8 +13,8 @@
 
 import os
 import shutil
+import uuid
 import pickle
-import tempfile
 
 import numpy as np
 
@@ -238,15 +238,14 @@ class Verify:
             # Write to a temporary file first so that an interrupted run or a concurrent reader
             # never sees a partial result under the final name
             #
-            fd, tmp_path = tempfile.mkstemp(dir=self.working_directory, suffix='.tmp')
+            tmp_path = '{}.{}.tmp'.format(path, uuid.uuid4().hex)
             
             try:
-                with os.fdopen(fd, 'wb') as f:
+                with open(tmp_path, 'wb') as f:
                     pickle.dump(arr, f)
                 os.replace(tmp_path, path)
-            except BaseException:
-                os.remove(tmp_path)
-                raise
+            finally:
+                if os.path.exists(tmp_path): os.remove(tmp_path)
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From 6ad85b278bee020d4a3524a12ccbe07ea5aa01c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:30 +0000
Subject: [PATCH 19/29] fix: bootstrapped correlation of a cell without valid
 pairs is missing

---
 PyAnEn/utils_special_boot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index fe62a45..19a6d70 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -127,6 +127,9 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
     
     else:
         corr = []
+        
+        # Nothing to sample from
+        if len(f_slice) == 0: return [np.nan] * 3
             
         for _ in range(repeats):
             indices = np.random.choice(list(range(len(f_slice))), size=n_samples, replace=True)
-- 
2.43.0


From a8cfc019323a81558b07b2e02c025f68dc373dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:49 +0000
Subject: [PATCH 20/29] fix: truncated Gamma keeps the whole upper tail and
 allows positive shifts

The upper cut was a fixed number of scale units, below the bulk of sharp
forecasts (shape above 10000), so that their CDF was zero everywhere; and a
positive shift made the lower cut negative, which gave NaN or an error.
---
 PyAnEn/utils_dist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..fc7f35d 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -50,9 +50,9 @@ def wrapper_gamma_cdf(x):
     return stats.gamma.cdf(x=x[3], a=x[0], scale=x[1], loc=x[2])
 
 def wrapper_truncgamma_rvs(x, n_sample_members):
-    return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
+    return truncgamma_gen()(a=np.maximum(-x[2]/x[1], 0), b=np.inf, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=np.maximum(-x[2]/x[1], 0), b=np.inf, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
@@ -134,7 +134,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
     
     if cores == 1:
         if truncated:
-            ens = truncgamma_gen()(a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
+            ens = truncgamma_gen()(a=np.maximum(-shift/scale, 0), b=np.inf, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         else:
             ens = stats.gamma(a=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         
@@ -221,7 +221,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
     
     if cores == 1:
         if truncated:
-            probs = truncgamma_gen().cdf(x=below, a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
+            probs = truncgamma_gen().cdf(x=below, a=np.maximum(-shift/scale, 0), b=np.inf, s=shape, loc=shift, scale=scale)
         else:
             probs = stats.gamma.cdf(x=below, a=shape, loc=shift, scale=scale)
             
-- 
2.43.0


From 5127bfe01f7b43563f2da6111ad94658d39d987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:27 +0000
Subject: [PATCH 21/29] fix: do not name saved results after abbreviated array
 thresholds inside tuples

---
 PyAnEn/Verify.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index e15bf89..d6c9ea1 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -156,6 +156,11 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
+                # Arrays can be nested, e.g., the thresholds of iou_prob
+                if isinstance(v, (list, tuple)):
+                    if any(isinstance(i, np.ndarray) and i.size > 5 for i in v): return None
+                    v = tuple(i.tolist() if isinstance(i, np.ndarray) else i for i in v)
+                
             # Numpy abbreviates numbers when printing
             if isinstance(v, np.ndarray): v = v.tolist()
             
-- 
2.43.0


From ec0bd59b717084900ff17c6e1a8dab57298789ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:27 +0000
Subject: [PATCH 22/29] fix: keep the name of the temporary file of a saved
 result short

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d6c9ea1..efb551b 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -243,7 +243,7 @@ class Verify:
             # Write to a temporary file first so that an interrupted run or a concurrent reader
             # never sees a partial result under the final name
             #
-            tmp_path = '{}.{}.tmp'.format(path, uuid.uuid4().hex)
+            tmp_path = os.path.join(self.working_directory, uuid.uuid4().hex + '.tmp')
             
             try:
                 with open(tmp_path, 'wb') as f:
-- 
2.43.0


From f353931f4e7b1f8ac0c680e84afca5d3c7cbc9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:58 +0000
Subject: [PATCH 23/29] fix: refuse averaging axes that the data do not have or
 that repeat

---
 PyAnEn/Verify.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index efb551b..ca2fc21 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -205,6 +205,12 @@ class Verify:
                 self.avg_axis = tuple(self.avg_axis)
             assert isinstance(self.avg_axis, tuple)
             
+            # Axes should exist in the data and be distinct
+            if hasattr(self, 'o'):
+                ndim = np.ndim(self.o)
+                assert all(isinstance(i, (int, np.integer)) and -ndim <= i < ndim for i in self.avg_axis), 'avg_axis {} is out of bounds'.format(self.avg_axis)
+                assert len({i % ndim for i in self.avg_axis}) == len(self.avg_axis), 'avg_axis {} has repeated axes'.format(self.avg_axis)
+            
     def _validate_saving(self):
         
         if self.working_directory:
-- 
2.43.0


From 2681c8f0b911a170d7161185a2cda8ee4d713eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 24/29] fix: two runs may make the directory for saved results
 at the same time

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index ca2fc21..f2ba8bb 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -222,7 +222,7 @@ class Verify:
                     shutil.rmtree(self.working_directory)
                     os.makedirs(self.working_directory)
             else:
-                os.makedirs(self.working_directory)
+                os.makedirs(self.working_directory, exist_ok=True)
     
     def _validate_boot_samples(self):
         if self.boot_samples is not None:
-- 
2.43.0


From 876dea94488323fc3ace809b847732e9e07286d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:36 +0000
Subject: [PATCH 25/29] fix: truncated Gamma with little probability left

---
 PyAnEn/dist_truncgamma.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index c847261..46a8b7d 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -19,7 +19,7 @@ import scipy.special as sc
 
 from scipy import stats
 from scipy.stats import rv_continuous
-from scipy.special import gammainc, gammaincinv
+from scipy.special import gammainc, gammaincinv, gammaincc, gammainccinv
 
 
 class truncgamma_gen(rv_continuous):
@@ -51,6 +51,12 @@ class truncgamma_gen(rv_continuous):
         P_b = sc.gammainc(s, b)
         result = (P_x - P_a) / (P_b - P_a)
         
+        # Use the upper tail if little of the distribution is left
+        Q_x = sc.gammaincc(s, x)
+        Q_a = sc.gammaincc(s, a)
+        Q_b = sc.gammaincc(s, b)
+        result = np.where(P_a < 0.5, result, (Q_a - Q_x) / (Q_a - Q_b))
+        
         mask = (x<a) | (x>b)
         result[mask] = 0.0
         return result
@@ -58,7 +64,14 @@ class truncgamma_gen(rv_continuous):
     def _ppf(self, q, a, b, s):
         P_a = gammainc(s, a)
         P_b = gammainc(s, b)
-        return gammaincinv(s, q * (P_b - P_a) + P_a)
+        lower = gammaincinv(s, q * (P_b - P_a) + P_a)
+        
+        # Use the upper tail if little of the distribution is left
+        Q_a = gammaincc(s, a)
+        Q_b = gammaincc(s, b)
+        upper = np.maximum(gammainccinv(s, Q_a - q * (Q_a - Q_b)), a)
+        
+        return np.where(P_a < 0.5, lower, upper)
     
     def _rvs(self, a, b, s, size=None, random_state=None):
         q = stats.uniform().rvs(size=size)
-- 
2.43.0


From ac4b2d2dc5d2a41b30b8b9fcfb3b6d9f59bbab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:54 +0000
Subject: [PATCH 26/29] fix: CRPS of truncated Gaussian forecasts with little
 probability left

---
 PyAnEn/utils_crps.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index 8887d42..87de254 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -96,22 +96,26 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     z[mask] = l[mask]
     
     dist = stats.norm()
-    f_z = dist.pdf(z)
-    F_z = dist.cdf(z)
-    F_l = dist.cdf(l)
-    F_u = 1
     
-    F_usqrt2 = 1
-    F_lsqrt2 = dist.cdf(l * np.sqrt(2))
+    # Calculate the density and the survival function (at z) relative to the survival function at l.
+    # If most of the distribution is truncated, use the Mills ratio because the survival functions vanish.
+    #
+    mills = lambda x: np.sqrt(np.pi / 2) * special.erfcx(x / np.sqrt(2))
+    
+    l_pos, l_neg = np.maximum(l, 0), np.minimum(l, 0)
+    z_pos = np.maximum(z, l_pos)
+    decay = np.exp((l_pos - z_pos) * (l_pos + z_pos) / 2)
     
-    # Calculate intermediate terms
-    frac1 = 1 / (F_u - F_l)
+    f_z = np.where(l > 0, decay / mills(l_pos), dist.pdf(z) / dist.sf(l_neg))
+    S_z = np.where(l > 0, decay * mills(z_pos) / mills(l_pos), dist.sf(z) / dist.sf(l_neg))
+    S_lsqrt2 = np.where(l > 0, np.sqrt(2 * np.pi) * mills(l_pos * np.sqrt(2)) / mills(l_pos) ** 2,
+                        dist.sf(l_neg * np.sqrt(2)) / dist.sf(l_neg) ** 2)
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (2 * F_z - F_u - F_l)
-    term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * (F_usqrt2 - F_lsqrt2)
+    term2 = z * (1 - 2 * S_z)
+    term3 = 2 * f_z
+    term4 = 1 / np.sqrt(np.pi) * S_lsqrt2
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0


From 8a46b6b4303d49e1e66a7c568d9fcfee55479eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 27/29] fix: open groups of several files that have no station
 locations of their own

---
 PyAnEn/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 3de2561..e9c9b67 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -145,7 +145,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-        with xr.open_mfdataset(paths=paths, preprocess=preprocess, concat_dim='num_stations',
+        with xr.open_mfdataset(paths=paths, preprocess=preprocess,
                                data_vars='minimal', coords='minimal', compat='override',
                                parallel=parallel, decode_cf=False) as ds_root:
 
-- 
2.43.0


From 77f6a2b680f2efaa22ed2f5aa6847b817f05be94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:45 +0000
Subject: [PATCH 28/29] fix: draw separately in every parallel slice when
 sampling ensembles

---
 PyAnEn/dist_truncgamma.py |  2 +-
 PyAnEn/utils_dist.py      | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index 46a8b7d..6cf6a14 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -74,5 +74,5 @@ class truncgamma_gen(rv_continuous):
         return np.where(P_a < 0.5, lower, upper)
     
     def _rvs(self, a, b, s, size=None, random_state=None):
-        q = stats.uniform().rvs(size=size)
+        q = stats.uniform().rvs(size=size, random_state=random_state)
         return self._ppf(q, a, b, s)
diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index fc7f35d..4903172 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -44,13 +44,20 @@ def _parallel_process(wrapper, iterable, total, name=''):
     return np.concatenate(ens, axis=parallelize_axis)
 
 
+def _slice_seeds(n):
+    # Workers start with copies of the state of the random generator. Without seeds of their own,
+    # slices (and later calls) would draw the same random numbers.
+    #
+    return np.random.randint(2 ** 32, size=(n, 4), dtype=np.uint32)
+
+
 def wrapper_gamma_rvs(x, n_sample_members):
-    return stats.gamma(a=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
+    return stats.gamma(a=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape), random_state=np.random.RandomState(x[3]))
 def wrapper_gamma_cdf(x):
     return stats.gamma.cdf(x=x[3], a=x[0], scale=x[1], loc=x[2])
 
 def wrapper_truncgamma_rvs(x, n_sample_members):
-    return truncgamma_gen()(a=np.maximum(-x[2]/x[1], 0), b=np.inf, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
+    return truncgamma_gen()(a=np.maximum(-x[2]/x[1], 0), b=np.inf, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape), random_state=np.random.RandomState(x[3]))
 def wrapper_truncgamma_cdf(x):
     return truncgamma_gen().cdf(x=x[3], a=np.maximum(-x[2]/x[1], 0), b=np.inf, s=x[0], scale=x[1], loc=x[2])
 
@@ -61,12 +68,12 @@ def wrapper_gamma_hurdle_cdf(x):
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
-    return stats.norm(loc=x[0], scale=x[1]).rvs([n_sample_members] + list(x[0].shape))
+    return stats.norm(loc=x[0], scale=x[1]).rvs([n_sample_members] + list(x[0].shape), random_state=np.random.RandomState(x[2]))
 def wrapper_norm_cdf(x):
     return stats.norm.cdf(x=x[2], loc=x[0], scale=x[1])
 
 def wrapper_truncnorm_rvs(x, n_sample_members):
-    return stats.truncnorm(a=-x[0]/x[1], b=_LARGE_NUMBER_, loc=x[0], scale=x[1]).rvs([n_sample_members] + list(x[0].shape))
+    return stats.truncnorm(a=-x[0]/x[1], b=_LARGE_NUMBER_, loc=x[0], scale=x[1]).rvs([n_sample_members] + list(x[0].shape), random_state=np.random.RandomState(x[2]))
 def wrapper_truncnorm_cdf(x):
     return stats.truncnorm.cdf(x=x[2], loc=x[0], scale=x[1], a=-x[0]/x[1], b=_LARGE_NUMBER_)
 
@@ -100,7 +107,8 @@ def sample_dist_gaussian(mu, sigma, n_sample_members=15, move_axis=-1, truncated
     
         iterable = zip(
             np.split(mu, mu.shape[parallelize_axis], parallelize_axis),
-            np.split(sigma, mu.shape[parallelize_axis], parallelize_axis)
+            np.split(sigma, mu.shape[parallelize_axis], parallelize_axis),
+            _slice_seeds(mu.shape[parallelize_axis])
         )
 
         if truncated:
@@ -145,6 +153,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
             np.split(shape, shape.shape[parallelize_axis], parallelize_axis),
             np.split(scale, scale.shape[parallelize_axis], parallelize_axis),
             np.split(shift, shift.shape[parallelize_axis], parallelize_axis),
+            _slice_seeds(shape.shape[parallelize_axis])
         )
         
         if truncated:
-- 
2.43.0


From dd86d442c32ab811c43b977794514b1d6d0df60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:04 +0000
Subject: [PATCH 29/29] fix: break ties separately in every parallel slice of a
 rank histogram

---
 PyAnEn/utils_verify.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 90f17f6..7a2ff4f 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -47,6 +47,14 @@ def rankdata(x):
     return obs_ranks
 
 
+def wrapper_rankdata(x, seed):
+    # Workers start with copies of the state of the random generator. Without seeds of their own,
+    # slices (and later calls) would break ties with the same random numbers.
+    #
+    np.random.seed(seed)
+    return rankdata(x)
+
+
 def rank_histogram(f, o, ensemble_axis):
     # Reference:
     # https://github.com/oliverangelil/rankhistogram/blob/master/ranky.py
@@ -74,8 +82,9 @@ def rank_histogram(f, o, ensemble_axis):
         chunksize = int(os.environ['pyanen_tqdm_chunksize'])
         assert parallelize_axis < 0, 'parallelize_axis needs to be negative, counting from the end of dimensions, excluding the ensemble axis'
         
-        ranks = process_map(rankdata,
+        ranks = process_map(wrapper_rankdata,
                             np.split(c, c.shape[parallelize_axis], parallelize_axis),
+                            np.random.randint(2 ** 32, size=(c.shape[parallelize_axis], 4), dtype=np.uint32),
                             disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
                             leave=util.strtobool(os.environ['pyanen_tqdm_leave']),
                             chunksize=chunksize, max_workers=cores,
-- 
2.43.0

