From 2c0dc55e4264ff4db371cebd7b13c18b5b1907d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 01/37] fix: evaluate the parallel truncated gamma CDF at the
 requested threshold

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From 66eb8b38aa031b55e5cc1eafd0f79f4d7d7af5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 02/37] fix: truncated gamma CDF is one, not zero, above the
 upper bound

---
 PyAnEn/dist_truncgamma.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index c847261..4f66b9d 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -29,10 +29,10 @@ class truncgamma_gen(rv_continuous):
     # https://stats.stackexchange.com/a/534340
 
     def _argcheck(self, a, b, s):
-        self.a = a  # lower bound
-        self.b = b  # upper bound
-        self.s = s
-        return (self.a >= 0.0) & (self.b > self.a)
+        return (a >= 0.0) & (b > a)
+    
+    def _get_support(self, a, b, s):
+        return a, b
     
     def _logpdf(self, x, a):
         return sc.xlogy(a-1.0, x) - x - sc.gammaln(a)
-- 
2.43.0


From 6d1cc2bb201748a7fc33b5698502ababe87d4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 03/37] fix: recompute the deterministic forecast when the
 ensemble axis or collapsing function changes

---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From 71ab9dd97040f3840634b4e6bc80ca8b86e52523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 04/37] fix: rank histogram with missing values used np.float,
 removed from numpy

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From 289da54f428a2a27874bff5d5f184f8da123f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 05/37] fix: randomize tied ranks also when every location has
 a tie

---
 PyAnEn/utils_verify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..e94af77 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -35,10 +35,10 @@ def rankdata(x):
     # Check for ties
     ties = np.nansum(ranks[0] == ranks[1:], axis=0)
     unique_tie = np.unique(ties)
-    unique_tie = unique_tie[~np.isnan(unique_tie)]
+    unique_tie = unique_tie[unique_tie > 0]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From f04c76b7f19e3e9bfa06c523a7c0f6d303b2b1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 06/37] fix: rank histogram and spread of sampled members
 follow the configured member axis

---
 PyAnEn/VerifyProb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..3768294 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,14 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=self.move_sampled_ens_axis) - np.nanmin(ens, axis=self.move_sampled_ens_axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=self.move_sampled_ens_axis) - np.min(ens, axis=self.move_sampled_ens_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From f01cac2d1513310261fabe5839041961eebec275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:53 +0000
Subject: [PATCH 07/37] fix: gamma CRPS overflowed to NaN for large shape
 parameters

---
 PyAnEn/utils_crps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index ed8541e..8ca676a 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,8 +23,8 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = np.log(special.gamma(x1)) + np.log(special.gamma(x2))
-    log_gamma_sum_x = np.log(special.gamma(x1 + x2))
+    log_prod_gamma_x = special.gammaln(x1) + special.gammaln(x2)
+    log_gamma_sum_x = special.gammaln(x1 + x2)
     return log_prod_gamma_x - log_gamma_sum_x
 
 
-- 
2.43.0


From 6e501a89177ae30daa62ea3adbf05f7cdfb2beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 08/37] fix: CRPS of the gamma hurdle model grew with the
 negative part of the integration range

---
 PyAnEn/VerifyProbGammaHurdle.py | 3 +++
 PyAnEn/utils_approximation.py   | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index b70ce3c..e5d22ae 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -24,6 +24,9 @@ from .utils_approximation import Integration
 
 class VerifyProbGammaHurdle(VerifyProb):
     
+    # The distribution has no mass below this value
+    integration_lower_bound = 0
+    
     def __init__(self, f, o, move_sampled_ens_axis=-1, truncated=False,
                  pit_randomize_zero_ranks=True, avg_axis=None,
                  n_sample_members=None, clip_member_to_zero=None, n_approx_bins=20, 
diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..4d58a09 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -290,6 +290,12 @@ class Integration:
             vrange = vmax - vmin
             self.integration_range = (vmin - range_multi * vrange, vmax + range_multi * vrange)
             
+        # Do not integrate below the support of the distribution
+        lower_bound = getattr(self.verifier, 'integration_lower_bound', None)
+        
+        if lower_bound is not None:
+            self.integration_range = (max(self.integration_range[0], lower_bound), self.integration_range[1])
+            
         self.seq_x = np.linspace(self.integration_range[0], self.integration_range[1], self.nbins)
     
     def _memmap_sum_mul(self, arr, mul, dtype):
-- 
2.43.0


From 5efb6479be7b32d89c389a8924ebbc4fb50fbba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 09/37] fix: gamma hurdle probability below a negative
 threshold is zero

---
 PyAnEn/utils_dist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..117eb1a 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -58,6 +58,7 @@ def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
     mask = x[3] > 0.
     prob[mask] += x[0][mask] * stats.gamma.cdf(x=x[3][mask], a=x[1][mask], scale=x[2][mask])
+    prob[x[3] < 0.] = 0.
     return prob
 
 def wrapper_norm_rvs(x, n_sample_members):
@@ -250,6 +251,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
 def cdf_gamma_hurdle(pop, mu, sigma, below):
     # The calculation is as follows:
     #
+    # 0                                        given below<0
     # 1 - pop                                  given below=0
     # [1-pop] + pop*CDFgamma(y,shape,scale).   given below>0
     #
-- 
2.43.0


From ad55771eb125703733cc682a3520c323af867f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 10/37] fix: save intermediate results atomically so that an
 interrupted run can be resumed

---
 PyAnEn/Verify.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..8086beb 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -12,6 +12,7 @@
 #
 
 import os
+import uuid
 import shutil
 import pickle
 
@@ -230,8 +231,12 @@ class Verify:
     def _save(self, name, arr):
         if self.working_directory and isinstance(name, str):
             path = os.path.join(self.working_directory, name + '.pkl')
-            with open(path, 'wb') as f:
+            
+            # Write to a temporary file first so that an interrupted run never leaves a partial result
+            path_tmp = '{}.{}.tmp'.format(path, uuid.uuid4().hex)
+            with open(path_tmp, 'wb') as f:
                 pickle.dump(arr, f)
+            os.replace(path_tmp, path)
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From a0d624bdf476107ad9aafa3d28d6ae8424e06ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 11/37] fix: restore settings and clean up when a numerical
 integration fails

---
 PyAnEn/utils_approximation.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index 4d58a09..82a82c9 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -223,13 +223,18 @@ class Integration:
     
     def _workflow(self, func):
         
+        ray_initialized = ray.is_initialized()
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
         
-        return ret
+        # Clean up no matter whether the integration succeeds
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            return func()
+        
+        finally:
+            if not ray_initialized and ray.is_initialized(): ray.shutdown()
+            self._finalize_memmap()
+            self._resume_sublevel_tqdm()
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
@@ -248,9 +253,10 @@ class Integration:
     
     def _finalize_memmap(self):
         if self.less_memory:
-            del self.memmap_arr_r
+            self.memmap_arr_r = None
             
-            os.remove(self.memmap_arr_str)
+            if os.path.exists(self.memmap_arr_str):
+                os.remove(self.memmap_arr_str)
             
             self.memmap_arr_str = None
             self.memmap_shape = None
-- 
2.43.0


From e5e40b42fbdb284853f996ccd4d643cdfc1035e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 12/37] fix: integrations running at the same time no longer
 share a memory-map file

---
 PyAnEn/utils_approximation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index 82a82c9..f4e2ae0 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -16,6 +16,7 @@
 
 import os
 import ray
+import uuid
 
 import numpy as np
 
@@ -238,7 +239,7 @@ class Integration:
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
-            self.memmap_arr_str = os.path.join(self.memmap_dir, '__pyanen_numerical_integration__.dat')
+            self.memmap_arr_str = os.path.join(self.memmap_dir, '__pyanen_numerical_integration__.{}.dat'.format(uuid.uuid4().hex))
             self.memmap_shape = memmap_shape
             
             self.memmap_arr_w = np.memmap(
-- 
2.43.0


From 74a1733c5d11054f3b67ac319cfed90b1ad82a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 13/37] fix: binned spread skill sorted the arrays of the
 caller in place

---
 PyAnEn/utils_ss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..5643f94 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -68,6 +68,10 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
     
     # Sort arrays based on variance 
+    # Copy the arrays first because reshaping might return a view of the input
+    #
+    variance, sq_error = variance.copy(), sq_error.copy()
+    
     for i in range(variance.shape[1]):
         index_sort = np.argsort(variance[:, i])
         variance[:, i] = variance[index_sort, i]
-- 
2.43.0


From 6ec61bdcd8cdf6f0b6fc1bc513ba94488ae8fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:20 +0000
Subject: [PATCH 14/37] fix: reliability index compares each rank frequency
 with the flat histogram

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 8086beb..15a449d 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -95,7 +95,7 @@ class Verify:
         if freqs_sum != 1:
             freqs = freqs / freqs_sum
             
-        return np.sum(np.abs(freqs - 1 / np.arange(2, len(freqs) + 2)))
+        return np.sum(np.abs(freqs - 1 / len(freqs)))
     
     ##########################
     # Postprocessing Methods #
-- 
2.43.0


From 0e5dab3131617745663ce5682000f3089c358127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 15/37] fix: support negative averaging axes in bootstrapped
 and binned metrics

---
 PyAnEn/utils_special_boot.py | 2 +-
 PyAnEn/utils_ss.py           | 3 +++
 PyAnEn/utils_verify.py       | 6 ++++++
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..e565b35 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -152,7 +152,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [axis + len(o.shape) if axis < 0 else axis for axis in avg_axis]
     
     # Calculate the output shape indices
     out_shape = list(set(range(len(o.shape))) - set(avg_axis))
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 5643f94..0c73485 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -52,6 +52,9 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     assert variance.shape == sq_error.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
 
+    # Negative axes count from the end
+    sample_axis = [axis + len(variance.shape) if axis < 0 else axis for axis in sample_axis]
+
     # Move sample axis to the beginning
     to_axis = 0
 
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e94af77..e68ec13 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -258,6 +258,9 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     if sample_axis is None:
         sample_axis = list(range(len(metric.shape)))
     
+    # Negative axes count from the end
+    sample_axis = [axis + len(metric.shape) if axis < 0 else axis for axis in sample_axis]
+
     # Move sample axis to the beginning
     to_axis = 0
 
@@ -301,6 +304,9 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     assert f_prob.shape == o_binary.shape
     assert hasattr(sample_axis, '__len__'), 'sample_axis must be an array-like object!'
 
+    # Negative axes count from the end
+    sample_axis = [axis + len(f_prob.shape) if axis < 0 else axis for axis in sample_axis]
+
     # Move sample axis to the beginning
     to_axis = 0
 
-- 
2.43.0


From d5681316bbac6960aca62f2418c85918699ea1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 16/37] fix: results that depend on the averaging axis were
 reloaded after the axis changed

---
 PyAnEn/Verify.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 15a449d..4ffc5cc 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -60,16 +60,16 @@ class Verify:
     # Metric Methods #
     ##################
     
-    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name), self._corr)
-    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._brier_decomp, over=over, below=below)
+    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._corr)
+    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._brier_decomp, over=over, below=below)
     
     def rank_hist(self, save_name='rank'): return self._metric_workflow_1(self.to_name(save_name), self._rank_hist)
     def variance(self, save_name='variance'): return self._metric_workflow_1(self.to_name(save_name), self._variance)
     def f_determ(self, save_name='f_determ'): return self._metric_workflow_1(self.to_name(save_name), self._f_determ)
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
-    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_prob, over=over, below=below)
+    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_determ, over=over, below=below)
+    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
@@ -79,8 +79,8 @@ class Verify:
     def ab_error(self, save_name='ab_error'): return self._metric_workflow_2(self.to_name(save_name), self._ab_error)
     def brier(self, over=None, below=None, save_name='brier'): return self._metric_workflow_2(self.to_name(save_name, over=over, below=below), self._brier, over=over, below=below)
     
-    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
-    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
+    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below, avg_axis=self.avg_axis), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
+    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, avg_axis=self.avg_axis), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
 
     def rmse(self, save_name='sq_error'): return np.sqrt(self.sq_error(save_name=save_name))
     
-- 
2.43.0


From 74028d586335436627caeb14b0ca417fa6521158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:44 +0000
Subject: [PATCH 17/37] fix: small threshold arrays that print alike shared one
 saved result

---
 PyAnEn/Verify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 4ffc5cc..5a52802 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -156,6 +156,9 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
+            # Avoid the same name for arrays that only look the same when printed with limited precision
+            if isinstance(v, np.ndarray): v = np.array2string(v, floatmode='unique')
+            
             strs[k] = str(v).replace(' ', '_')
         
         return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
-- 
2.43.0


From b6cdad4e003dd316b5594485b6c2055d45d87ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 18/37] fix: parallel workers drew identical random numbers for
 different locations

---
 PyAnEn/utils_dist.py   | 16 ++++++++++++++++
 PyAnEn/utils_verify.py |  7 +++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 117eb1a..ae65700 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -27,6 +27,18 @@ from tqdm.contrib.concurrent import process_map
 _LARGE_NUMBER_ = 10000
 
 
+def call_with_seed(x, func):
+    # Worker processes inherit the same random state from their parent.
+    # Each task needs its own seed or otherwise workers generate the same random numbers.
+    #
+    np.random.seed(x[0])
+    return func(x[1])
+
+
+def add_seeds(iterable, total):
+    return zip(np.random.randint(2 ** 32, size=(total, 4), dtype=np.uint32), iterable)
+
+
 def _parallel_process(wrapper, iterable, total, name=''):
     
     cores = int(os.environ['pyanen_tqdm_workers'])
@@ -109,6 +121,8 @@ def sample_dist_gaussian(mu, sigma, n_sample_members=15, move_axis=-1, truncated
         else:
             wrapper = partial(wrapper_norm_rvs, n_sample_members=n_sample_members)
         
+        wrapper = partial(call_with_seed, func=wrapper)
+        iterable = add_seeds(iterable, mu.shape[parallelize_axis])
         ens = _parallel_process(wrapper, iterable, total=mu.shape[parallelize_axis], name='truncnorm.rvs' if truncated else 'norm.rvs')
             
     # Move the ensemble axis somewhere else if the first position is not desired
@@ -153,6 +167,8 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
         else:
             wrapper = partial(wrapper_gamma_rvs, n_sample_members=n_sample_members)
         
+        wrapper = partial(call_with_seed, func=wrapper)
+        iterable = add_seeds(iterable, shape.shape[parallelize_axis])
         ens = _parallel_process(wrapper, iterable, total=shape.shape[parallelize_axis], name='truncgamma.rvs' if truncated else 'gamma.rvs')
         
     # Move the ensemble axis somewhere else if the first position is not desired
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e68ec13..d9cef2d 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -23,8 +23,10 @@ from scipy import stats
 from distutils import util
 from tqdm.auto import tqdm
 from sklearn import metrics
+from functools import partial
 from sklearn.neighbors import KernelDensity
 from tqdm.contrib.concurrent import process_map
+from .utils_dist import add_seeds, call_with_seed
 
 
 def rankdata(x):
@@ -74,8 +76,9 @@ def rank_histogram(f, o, ensemble_axis):
         chunksize = int(os.environ['pyanen_tqdm_chunksize'])
         assert parallelize_axis < 0, 'parallelize_axis needs to be negative, counting from the end of dimensions, excluding the ensemble axis'
         
-        ranks = process_map(rankdata,
-                            np.split(c, c.shape[parallelize_axis], parallelize_axis),
+        ranks = process_map(partial(call_with_seed, func=rankdata),
+                            add_seeds(np.split(c, c.shape[parallelize_axis], parallelize_axis), c.shape[parallelize_axis]),
+                            total=c.shape[parallelize_axis],
                             disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
                             leave=util.strtobool(os.environ['pyanen_tqdm_leave']),
                             chunksize=chunksize, max_workers=cores,
-- 
2.43.0


From daaf9c61410a5ac8369f8d117b7035f6f05512fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 19/37] fix: keep kernel density probabilities between zero and
 one

---
 PyAnEn/utils_verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9cef2d..b827f57 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -119,7 +119,8 @@ def ens_to_prob_kde(ens, bandwidth=None, kernel=None,
     if pbar is not None:
         pbar.update(1)
         
-    return np.sum(np.exp(kde.score_samples(x))) * interval
+    # Numerical integration might go slightly out of range
+    return np.clip(np.sum(np.exp(kde.score_samples(x))) * interval, 0, 1)
 
 
 def ens_to_prob_moments(ens, pbar=None):
-- 
2.43.0


From c5cf75714f88201e4ada294ee34f8a8c3edb10a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 20/37] fix: bootstrap intervals of all metrics cover the
 configured confidence

---
 PyAnEn/utils_special_boot.py | 16 ++++++++--------
 PyAnEn/utils_ss.py           |  4 ++--
 PyAnEn/utils_verify.py       |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index e565b35..c9f09e3 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -96,18 +96,18 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             uncertainty.append(ret[2])
         
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.nanquantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.nanquantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.quantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.quantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -131,10 +131,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 0c73485..0f14f1e 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -166,8 +166,8 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            variance_ci = np.quantile(variances, [(1-confidence)/2, (1+confidence)/2])
+            mse_ci = np.quantile(mses, [(1-confidence)/2, (1+confidence)/2])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index b827f57..b6c935f 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -420,10 +420,10 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            ci = np.quantile(sample_probs, [(1-confidence)/2, (1+confidence)/2])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [(1-confidence)/2, (1+confidence)/2])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From c1d68710659f51266898512adcf3dc33379258d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 21/37] fix: autocovariance in the Diebold-Mariano test is
 normalized by the sample size

---
 PyAnEn/utils_significance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_significance.py b/PyAnEn/utils_significance.py
index b5d75f4..d67bd6a 100644
--- a/PyAnEn/utils_significance.py
+++ b/PyAnEn/utils_significance.py
@@ -20,7 +20,7 @@ from scipy.stats import t
 
 
 def autocovariance(d, k):
-    return np.mean((d[k:] - d.mean()) * (d[:(len(d) - k)] - d.mean()))
+    return np.sum((d[k:] - d.mean()) * (d[:(len(d) - k)] - d.mean())) / len(d)
 
 
 def diebold_mariano_test(actual_lst, pred1_lst, pred2_lst, h=1, crit="MSE", power=2):
-- 
2.43.0


From e382c1617f3d6537616670968c8fd06d0975a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 22/37] fix: decode the search time coordinate like the other
 time coordinates

---
 PyAnEn/IO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 3de2561..ec4bbaa 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -81,7 +81,7 @@ def open_dataset(file, group=None, decode=False):
             ds.coords[key] = ds[value]
 
     # Deal with time units
-    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_times']:
+    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_search_times', 'num_times']:
         if var in ds:
             ds[var] = ds[var].assign_attrs(units='seconds since 1970-01-01')
 
@@ -153,7 +153,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
                            Ys=(ds_root['Ys'].dims, ds_root['Ys'].values))
 
     # Deal with time units
-    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_times']:
+    for var in ['test_times', 'search_times', 'Times', 'num_test_times', 'num_search_times', 'num_times']:
         if var in ds:
             ds[var] = ds[var].assign_attrs(units='seconds since 1970-01-01')
 
-- 
2.43.0


From a7573c9d200565dc79f3735d32cb245eb02b1bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:35 +0000
Subject: [PATCH 23/37] fix: bootstrapped correlation ignores missing values
 when asked to

---
 PyAnEn/utils_special_boot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index c9f09e3..940bc9b 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -116,12 +116,12 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
 
 def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
     
+    if skip_nan:
+        mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+        if np.any(mask): f_slice, o_slice = f_slice[mask], o_slice[mask]
+    
     if n_samples is None:
-        if skip_nan:
-            mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
-            return np.corrcoef(f_slice[mask], o_slice[mask])[0, 1]
-        else:
-            return np.corrcoef(f_slice, o_slice)[0, 1]
+        return np.corrcoef(f_slice, o_slice)[0, 1]
     
     else:
         corr = []
-- 
2.43.0


From 550dde4f080380dbda7334c0a3afd2f54bfc42c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:44 +0000
Subject: [PATCH 24/37] fix: missing observations were counted as non-events in
 probability metrics

---
 PyAnEn/utils_approximation.py |  5 +++--
 PyAnEn/utils_special_boot.py  |  4 ++++
 PyAnEn/utils_verify.py        | 20 +++++++++++++++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index f4e2ae0..bf87225 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -291,8 +291,9 @@ class Integration:
             assert range_multi > 0
             
             # Define the x bins to integrate
-            vmin = np.min(self.verifier.o)
-            vmax = np.max(self.verifier.o)
+            skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
+            vmin = np.nanmin(self.verifier.o) if skip_nan else np.min(self.verifier.o)
+            vmax = np.nanmax(self.verifier.o) if skip_nan else np.max(self.verifier.o)
             
             vrange = vmax - vmin
             self.integration_range = (vmin - range_multi * vrange, vmax + range_multi * vrange)
diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 940bc9b..a021131 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -49,6 +49,10 @@ def brier_decomp(f, o, avg_axis=None, n_samples=None, repeats=None, confidence=N
 
 def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_nan, n_bins=19):
     
+    if skip_nan:
+        mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+        if np.any(mask): f_slice, o_slice = f_slice[mask], o_slice[mask]
+    
     bins = np.linspace(0, 1, n_bins + 2)[1:-1]
     belongs = np.digitize(f_slice, bins)
 
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index b6c935f..2233b7d 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -200,7 +200,11 @@ def ens_to_prob(f, ensemble_aixs, over=None, below=None):
 
 def binarize_obs(o, over=None, below=None):
     assert (over is None) ^ (below is None), 'Must specify over or below'
-    return o < below if over is None else o > over
+    event = o < below if over is None else o > over
+    
+    # A missing observation is neither an event nor a non-event
+    missing = np.isnan(o)
+    return np.where(missing, np.nan, event) if np.any(missing) else event
 
 
 def calculate_roc(f_prob, o_binary):
@@ -333,8 +337,16 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     return binids, f_prob, o_binary, bins
 
 
+def _remove_missing(binids, y_prob, y_true):
+    mask = np.isnan(y_prob) | np.isnan(y_true)
+    return binids[~mask], y_prob[~mask], y_true[~mask]
+
+
 def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
 
+    if util.strtobool(os.environ['pyanen_skip_nan']):
+        binids, y_prob, y_true = _remove_missing(binids, y_prob, y_true)
+
     bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
     bin_true = np.bincount(binids, weights=y_true, minlength=len(bins))
     bin_total = np.bincount(binids, minlength=len(bins))
@@ -400,6 +412,9 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
     if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
     if skip_nan is None: skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
     
+    if skip_nan:
+        binids, y_prob, y_true = _remove_missing(binids, y_prob, y_true)
+    
     probs_pred = []
     probs_true = []
     
@@ -538,6 +553,9 @@ def iou_prob(f_prob, o_binary, axis=None, over=None, below=None):
     assert f_prob.shape == o_binary.shape
     assert (over is None) ^ (below is None), 'Must specify over or below'
     
+    # Similar to iou_determ, missing observations are not events
+    o_binary = o_binary == 1
+    
     if over is None:
         assert 0 <= below <= 1, 'below needs to be a probability in [0, 1]'
         f_binary = f_prob < below
-- 
2.43.0


From de5ea408874454595a0f4c143830aa080fdaf8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:11 +0000
Subject: [PATCH 25/37] fix: CRPS of the truncated Gaussian lost precision when
 little mass is above zero

---
 PyAnEn/utils_crps.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index 8ca676a..d07ea56 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -99,21 +99,20 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     
     dist = stats.norm()
     f_z = dist.pdf(z)
-    F_z = dist.cdf(z)
-    F_l = dist.cdf(l)
-    F_u = 1
     
-    F_usqrt2 = 1
-    F_lsqrt2 = dist.cdf(l * np.sqrt(2))
+    # Use survival functions (F_u - F = 1 - F) because the difference cancels if little mass is left after truncation
+    S_z = dist.sf(z)
+    S_l = dist.sf(l)
+    S_lsqrt2 = dist.sf(l * np.sqrt(2))
     
     # Calculate intermediate terms
-    frac1 = 1 / (F_u - F_l)
+    frac1 = 1 / S_l
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (2 * F_z - F_u - F_l)
+    term2 = frac1 * z * (S_l - 2 * S_z)
     term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * (F_usqrt2 - F_lsqrt2)
+    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * S_lsqrt2
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0


From 163eebaadea5df02b9ddfa28392dac19e2ed2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:38 +0000
Subject: [PATCH 26/37] fix: two processes creating the same working directory
 at once failed

---
 PyAnEn/Verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 5a52802..5089690 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -211,7 +211,8 @@ class Verify:
                     shutil.rmtree(self.working_directory)
                     os.makedirs(self.working_directory)
             else:
-                os.makedirs(self.working_directory)
+                # Another process might create the directory at the same time
+                os.makedirs(self.working_directory, exist_ok=True)
     
     def _validate_boot_samples(self):
         if self.boot_samples is not None:
-- 
2.43.0


From 7039ed4f28e41cd70f9fa2d28bdfe020c30080a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:03 +0000
Subject: [PATCH 27/37] fix: a failed save left its temporary file behind

---
 PyAnEn/Verify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 5089690..bbb635f 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -238,9 +238,12 @@ class Verify:
             
             # Write to a temporary file first so that an interrupted run never leaves a partial result
             path_tmp = '{}.{}.tmp'.format(path, uuid.uuid4().hex)
-            with open(path_tmp, 'wb') as f:
-                pickle.dump(arr, f)
-            os.replace(path_tmp, path)
+            try:
+                with open(path_tmp, 'wb') as f:
+                    pickle.dump(arr, f)
+                os.replace(path_tmp, path)
+            finally:
+                if os.path.exists(path_tmp): os.remove(path_tmp)
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From 59f646cff3590a55dbbde74242eda33de9d1d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:08 +0000
Subject: [PATCH 28/37] fix: truncated gamma with a large shape was cut off at
 10000 scale units

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index ae65700..c638a72 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -24,7 +24,7 @@ from functools import partial
 from .dist_truncgamma import truncgamma_gen
 from tqdm.contrib.concurrent import process_map
 
-_LARGE_NUMBER_ = 10000
+_LARGE_NUMBER_ = np.inf
 
 
 def call_with_seed(x, func):
-- 
2.43.0


From c5c317a4c296e5d0049ebc68217e34d0b66a1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:02 +0000
Subject: [PATCH 29/37] fix: opening a group of several files failed when
 locations are stored in the root group

xarray rejects concat_dim together with the default combine='by_coords'.
---
 PyAnEn/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index ec4bbaa..5e42894 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -145,7 +145,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-        with xr.open_mfdataset(paths=paths, preprocess=preprocess, concat_dim='num_stations',
+        with xr.open_mfdataset(paths=paths, preprocess=preprocess,
                                data_vars='minimal', coords='minimal', compat='override',
                                parallel=parallel, decode_cf=False) as ds_root:
 
-- 
2.43.0


From 5ad9a96b89cccbd646af4b1db896dd64501eaefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:52 +0000
Subject: [PATCH 30/37] fix: default integration range failed or wrapped around
 for observations that are not double precision

---
 PyAnEn/utils_approximation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index bf87225..5644460 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -292,8 +292,8 @@ class Integration:
             
             # Define the x bins to integrate
             skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
-            vmin = np.nanmin(self.verifier.o) if skip_nan else np.min(self.verifier.o)
-            vmax = np.nanmax(self.verifier.o) if skip_nan else np.max(self.verifier.o)
+            vmin = float(np.nanmin(self.verifier.o) if skip_nan else np.min(self.verifier.o))
+            vmax = float(np.nanmax(self.verifier.o) if skip_nan else np.max(self.verifier.o))
             
             vrange = vmax - vmin
             self.integration_range = (vmin - range_multi * vrange, vmax + range_multi * vrange)
@@ -304,7 +304,7 @@ class Integration:
         if lower_bound is not None:
             self.integration_range = (max(self.integration_range[0], lower_bound), self.integration_range[1])
             
-        self.seq_x = np.linspace(self.integration_range[0], self.integration_range[1], self.nbins)
+        self.seq_x = np.linspace(self.integration_range[0], self.integration_range[1], self.nbins, dtype=float)
     
     def _memmap_sum_mul(self, arr, mul, dtype):
         
-- 
2.43.0


From 3a617b5f6d8592e90e7c5ef850a633427d51389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:52 +0000
Subject: [PATCH 31/37] fix: CDF refused numpy scalars other than float64 as
 thresholds

---
 PyAnEn/utils_dist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index c638a72..67b71b6 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -190,7 +190,7 @@ def cdf_gaussian(mu, sigma, below, truncated=False):
     
     if isinstance(below, np.ndarray):
         assert below.shape == mu.shape
-    elif isinstance(below, float) or isinstance(below, int):
+    elif isinstance(below, (float, int, np.number)):
         below = np.full(mu.shape, below)
     else:
         raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
@@ -231,7 +231,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
         
     if isinstance(below, np.ndarray):
         assert below.shape == shape.shape
-    elif isinstance(below, float) or isinstance(below, int):
+    elif isinstance(below, (float, int, np.number)):
         below = np.full(shape.shape, below)
     else:
         raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
@@ -280,7 +280,7 @@ def cdf_gamma_hurdle(pop, mu, sigma, below):
         
     if isinstance(below, np.ndarray):
         assert below.shape == shape.shape
-    elif isinstance(below, float) or isinstance(below, int):
+    elif isinstance(below, (float, int, np.number)):
         below = np.full(shape.shape, below)
     else:
         raise RuntimeError('below should be either a scalar or an Numpy array. Got {}'.format(type(below)))
-- 
2.43.0


From 068791c867bfab6e93fc1fc4f4d73f2f6f2f10a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:26 +0000
Subject: [PATCH 32/37] fix: single precision thresholds shared saved results
 with double precision ones that print alike

---
 PyAnEn/Verify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index bbb635f..eaafe60 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -156,7 +156,10 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
-            # Avoid the same name for arrays that only look the same when printed with limited precision
+            # Avoid the same name for values that only look the same when printed with limited precision
+            if isinstance(v, (np.ndarray, np.floating)) and v.dtype.kind == 'f':
+                v = v.astype(np.result_type(v.dtype, np.float64))
+            
             if isinstance(v, np.ndarray): v = np.array2string(v, floatmode='unique')
             
             strs[k] = str(v).replace(' ', '_')
-- 
2.43.0


From 39024f3682c20e61b771474c4007727a28cb0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:50 +0000
Subject: [PATCH 33/37] fix: errors, spread and CRPS of integer forecasts and
 observations wrapped around

---
 PyAnEn/VerifyDeterm.py   |  7 ++++---
 PyAnEn/VerifyEnsemble.py | 15 ++++++++-------
 PyAnEn/utils_verify.py   |  5 +++++
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/PyAnEn/VerifyDeterm.py b/PyAnEn/VerifyDeterm.py
index bded77d..0efd60a 100644
--- a/PyAnEn/VerifyDeterm.py
+++ b/PyAnEn/VerifyDeterm.py
@@ -18,6 +18,7 @@ import numpy as np
 
 from .Verify import Verify
 from .utils_special_boot import corr
+from .utils_verify import as_float
 from .utils_verify import iou_determ
 
 
@@ -37,13 +38,13 @@ class VerifyDeterm(Verify):
     ##################
     
     def _error(self):
-        return self.f - self.o
+        return as_float(self.f) - as_float(self.o)
     
     def _sq_error(self):
-        return (self.f - self.o) ** 2
+        return (as_float(self.f) - as_float(self.o)) ** 2
     
     def _ab_error(self):
-        return np.abs(self.f - self.o)
+        return np.abs(as_float(self.f) - as_float(self.o))
     
     def _iou_determ(self, over=None, below=None):
         return iou_determ(self.f, self.o, axis=self.avg_axis, over=over, below=below)
diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 751abac..b2f36fe 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -23,6 +23,7 @@ from tqdm.auto import tqdm
 from .Verify import Verify
 from .utils_special_boot import corr
 from .utils_special_boot import brier_decomp
+from .utils_verify import as_float
 from .utils_verify import iou_prob
 from .utils_verify import iou_determ
 from .utils_verify import ens_to_prob
@@ -77,13 +78,13 @@ class VerifyEnsemble(Verify):
         return corr(self.f_determ(), self.o, self.avg_axis, self.boot_samples)
     
     def _error(self):
-        return self.f_collapsed - self.o
+        return as_float(self.f_collapsed) - as_float(self.o)
     
     def _sq_error(self):
-        return (self.f_collapsed - self.o) ** 2
+        return (as_float(self.f_collapsed) - as_float(self.o)) ** 2
     
     def _ab_error(self):
-        return np.abs(self.f_collapsed - self.o)
+        return np.abs(as_float(self.f_collapsed) - as_float(self.o))
     
     def _crps(self):
         if util.strtobool(os.environ['pyanen_split_crps_ensemble_along_0']):
@@ -94,7 +95,7 @@ class VerifyEnsemble(Verify):
             else:
                 _f = np.moveaxis(self.f, self.ensemble_axis, -1)
                 
-            crps = [ps.crps_ensemble(self.o[i], _f[i], axis=-1)
+            crps = [ps.crps_ensemble(as_float(self.o[i]), as_float(_f[i]), axis=-1)
                     for i in tqdm(
                         range(self.o.shape[0]),
                         disable=util.strtobool(os.environ['pyanen_tqdm_disable']),
@@ -104,16 +105,16 @@ class VerifyEnsemble(Verify):
             return np.stack(crps, axis=0)
         
         else:
-            return ps.crps_ensemble(observations=self.o, forecasts=self.f, axis=self.ensemble_axis)
+            return ps.crps_ensemble(observations=as_float(self.o), forecasts=as_float(self.f), axis=self.ensemble_axis)
     
     def _rank_hist(self):
         return rank_histogram(f=self.f, o=self.o, ensemble_axis=self.ensemble_axis)
     
     def _spread(self):
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(self.f, axis=self.ensemble_axis) - np.nanmin(self.f, axis=self.ensemble_axis)
+            return as_float(np.nanmax(self.f, axis=self.ensemble_axis)) - as_float(np.nanmin(self.f, axis=self.ensemble_axis))
         else:
-            return np.max(self.f, axis=self.ensemble_axis) - np.min(self.f, axis=self.ensemble_axis)
+            return as_float(np.max(self.f, axis=self.ensemble_axis)) - as_float(np.min(self.f, axis=self.ensemble_axis))
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 2233b7d..25a018d 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -198,6 +198,11 @@ def ens_to_prob(f, ensemble_aixs, over=None, below=None):
     return ret
 
 
+def as_float(x):
+    # Differences and squares of integers wrap around when they do not fit into the integer type
+    return np.asarray(x, dtype=float) if np.issubdtype(np.asarray(x).dtype, np.integer) else x
+
+
 def binarize_obs(o, over=None, below=None):
     assert (over is None) ^ (below is None), 'Must specify over or below'
     event = o < below if over is None else o > over
-- 
2.43.0


From bf23f2c36855610962ffddfbfb691f2a5721ec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:31 +0000
Subject: [PATCH 34/37] fix: Diebold-Mariano test of integer series wrapped
 around

---
 PyAnEn/utils_significance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyAnEn/utils_significance.py b/PyAnEn/utils_significance.py
index d67bd6a..d1b9263 100644
--- a/PyAnEn/utils_significance.py
+++ b/PyAnEn/utils_significance.py
@@ -17,6 +17,7 @@
 import numpy as np
 
 from scipy.stats import t
+from .utils_verify import as_float
 
 
 def autocovariance(d, k):
@@ -69,6 +70,9 @@ def diebold_mariano_test(actual_lst, pred1_lst, pred2_lst, h=1, crit="MSE", powe
     pred1_lst = pred1_lst.ravel()
     pred2_lst = pred2_lst.ravel()
     
+    # Differences and powers of integers wrap around when they do not fit into the integer type
+    actual_lst, pred1_lst, pred2_lst = as_float(actual_lst), as_float(pred1_lst), as_float(pred2_lst)
+    
     lst_size = len(actual_lst)
     assert lst_size == len(pred1_lst) == len(pred2_lst), 'Lengths of actual_lst, pred1_lst and pred2_lst must match!'
     
-- 
2.43.0


From 3fef61706e0aa2ddcdba9ac076fb3cacba6f4b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:59 +0000
Subject: [PATCH 35/37] fix: truncated gamma lost all precision or became NaN
 when little mass is above zero

---
 PyAnEn/dist_truncgamma.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index 4f66b9d..008b65a 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -19,7 +19,7 @@ import scipy.special as sc
 
 from scipy import stats
 from scipy.stats import rv_continuous
-from scipy.special import gammainc, gammaincinv
+from scipy.special import gammaincc, gammainccinv
 
 
 class truncgamma_gen(rv_continuous):
@@ -38,7 +38,7 @@ class truncgamma_gen(rv_continuous):
         return sc.xlogy(a-1.0, x) - x - sc.gammaln(a)
 
     def _pdf(self, x, a, b, s):
-        result = np.exp(self._logpdf(x, s)) / (sc.gammainc(s, b) - sc.gammainc(s, a))
+        result = np.exp(self._logpdf(x, s)) / (sc.gammaincc(s, a) - sc.gammaincc(s, b))
         
         mask = (x<a) | (x>b)
         result[mask] = 0.0
@@ -46,19 +46,19 @@ class truncgamma_gen(rv_continuous):
 
     def _cdf(self, x, a, b, s):
         
-        P_x = sc.gammainc(s, x)
-        P_a = sc.gammainc(s, a)
-        P_b = sc.gammainc(s, b)
-        result = (P_x - P_a) / (P_b - P_a)
+        Q_x = sc.gammaincc(s, x)
+        Q_a = sc.gammaincc(s, a)
+        Q_b = sc.gammaincc(s, b)
+        result = (Q_a - Q_x) / (Q_a - Q_b)
         
         mask = (x<a) | (x>b)
         result[mask] = 0.0
         return result
     
     def _ppf(self, q, a, b, s):
-        P_a = gammainc(s, a)
-        P_b = gammainc(s, b)
-        return gammaincinv(s, q * (P_b - P_a) + P_a)
+        Q_a = gammaincc(s, a)
+        Q_b = gammaincc(s, b)
+        return gammainccinv(s, Q_a - q * (Q_a - Q_b))
     
     def _rvs(self, a, b, s, size=None, random_state=None):
         q = stats.uniform().rvs(size=size)
-- 
2.43.0


From dead1858f26dc353492f38a0be4bc207c83c4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:48 +0000
Subject: [PATCH 36/37] fix: truncated gamma with a positive shift was NaN
 everywhere

---
 PyAnEn/utils_dist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 67b71b6..aa1e1ca 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -62,9 +62,9 @@ def wrapper_gamma_cdf(x):
     return stats.gamma.cdf(x=x[3], a=x[0], scale=x[1], loc=x[2])
 
 def wrapper_truncgamma_rvs(x, n_sample_members):
-    return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
+    return truncgamma_gen()(a=np.maximum(-x[2]/x[1], 0), b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=np.maximum(-x[2]/x[1], 0), b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
@@ -149,7 +149,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
     
     if cores == 1:
         if truncated:
-            ens = truncgamma_gen()(a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
+            ens = truncgamma_gen()(a=np.maximum(-shift/scale, 0), b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         else:
             ens = stats.gamma(a=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         
@@ -238,7 +238,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
     
     if cores == 1:
         if truncated:
-            probs = truncgamma_gen().cdf(x=below, a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
+            probs = truncgamma_gen().cdf(x=below, a=np.maximum(-shift/scale, 0), b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
         else:
             probs = stats.gamma.cdf(x=below, a=shape, loc=shift, scale=scale)
             
-- 
2.43.0


From 5b1745b6c69be2418c62f3631fa46b8d75cf7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:01 +0000
Subject: [PATCH 37/37] fix: CRPS of truncated Gaussians became NaN when almost
 no mass is above zero

---
 PyAnEn/utils_crps.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index d07ea56..d02d471 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -98,21 +98,20 @@ def crps_truncated_gaussian(y, mu=0, scale=1, l=0):
     z[mask] = l[mask]
     
     dist = stats.norm()
-    f_z = dist.pdf(z)
     
-    # Use survival functions (F_u - F = 1 - F) because the difference cancels if little mass is left after truncation
-    S_z = dist.sf(z)
-    S_l = dist.sf(l)
-    S_lsqrt2 = dist.sf(l * np.sqrt(2))
-    
-    # Calculate intermediate terms
-    frac1 = 1 / S_l
+    # Use survival functions (F_u - F = 1 - F) because the difference cancels if little mass is left after truncation.
+    # Use logarithms because the mass left after truncation might be too small to be represented.
+    #
+    log_f_z = dist.logpdf(z)
+    log_S_z = dist.logsf(z)
+    log_S_l = dist.logsf(l)
+    log_S_lsqrt2 = dist.logsf(l * np.sqrt(2))
     
     # Calculate separate terms
     term1 = np.abs(y - z)
-    term2 = frac1 * z * (S_l - 2 * S_z)
-    term3 = frac1 * 2 * f_z
-    term4 = frac1 ** 2 * 1 / np.sqrt(np.pi) * S_lsqrt2
+    term2 = z * (1 - 2 * np.exp(log_S_z - log_S_l))
+    term3 = 2 * np.exp(log_f_z - log_S_l)
+    term4 = np.exp(log_S_lsqrt2 - 2 * log_S_l) / np.sqrt(np.pi)
     
     # Calculate final metric
     crps = term1 + term2 + term3 - term4
-- 
2.43.0

