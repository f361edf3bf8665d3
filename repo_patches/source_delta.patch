From 80c80399a74b8ca5876522fd1e9e3f5bc1097739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 01/67] fix: KuTa12 sampler must not pivot on a numerically
 null entry

Pivoting on the first non zero entry of V[j, :] divides by rounding errors
when the kernel has structural zeros (e.g. block diagonal): items could be
drawn twice and the law was wrong.
---
 dppy/exact_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 7adc95d..25267eb 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -651,8 +651,8 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
             break
 
         # Cancel the contribution of e_i to the remaining vectors that is, find the subspace of V that is orthogonal to \{e_i ; i \in Y\}
-        # Take the index of a vector that has a non null contribution on e_j
-        k = np.where(V[j, :] != 0)[0][0]
+        # Take the index of the vector that has the largest contribution on e_j (stable pivot)
+        k = np.argmax(np.abs(V[j, :]))
         # Cancel the contribution of the remaining vectors on e_j, but stay in the subspace spanned by V i.e. get the subspace of V orthogonal to \{e_i ; i \in Y\}
         V -= np.outer(V[:, k] / V[j, k], V[j, :])
         # V_:j is set to 0 so we delete it and we can derive an orthononormal basis of the subspace under consideration
-- 
2.43.0


From 8fc272fb5b81d62ad48ab7e87a702db58ecef2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 02/67] fix: re-evaluate E_poly when a larger k-DPP is sampled

size_k_dpp is overwritten at the top of sample_exact_k_dpp, hence the test
was never true and a larger k after a smaller one raised an IndexError.
---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9330e2b..e06e524 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -647,7 +647,7 @@ class FiniteDPP:
 
             # Phase 1
             # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.size_k_dpp < size:
+            if self.E_poly is None or self.E_poly.shape[0] <= size:
                 self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
                                                                size)
             # Select eigenvectors
-- 
2.43.0


From 9c1a6395cc2b39259ee54cadfde4da2b872d9d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 03/67] fix: rank deficient L_gram_factor (d<N) made
 eigenvectors NaN

The eigenvectors of L were derived from those of L_dual by dividing by the
square root of null eigenvalues. The resulting NaN columns then leaked in
compute_K and in the samplers relying on it.
---
 dppy/finite_dpps.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index e06e524..7229633 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -420,10 +420,7 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)
-            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            self._eigendecompose_L_from_L_dual()
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -671,10 +668,7 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V.T
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
-            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            self._eigendecompose_L_from_L_dual()
             return self.sample_exact_k_dpp(size, mode=self.sampling_mode,
                                            random_state=rng)
 
@@ -816,6 +810,22 @@ class FiniteDPP:
 
         return self.sample_mcmc(self.sampling_mode, **params)
 
+    def _eigendecompose_L_from_L_dual(self):
+        """ Derive the (thin) eigendecomposition of :math:`L = \\Phi^{\\top} \\Phi` from that of :math:`L' = \\Phi \\Phi^{\\top}`.
+        Null eigenvalues are discarded since the corresponding eigenvectors of :math:`L` cannot be obtained from those of :math:`L'`.
+        """
+        eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
+        eig_vals = is_geq_0(eig_vals)
+
+        # as in np.linalg.matrix_rank
+        d, N = self.L_gram_factor.shape
+        tol = np.max(np.abs(eig_vals)) * max(d, N) * np.finfo(float).eps
+        non_null = eig_vals > tol
+
+        self.L_eig_vals = eig_vals[non_null]
+        self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs[:, non_null]
+                                                / np.sqrt(self.L_eig_vals))
+
     def compute_K(self, msg=False):
         """ Compute the correlation kernel :math:`\\mathbf{K}` from the original parametrization of the :class:`FiniteDPP` object.
 
-- 
2.43.0


From cabee35253072be06853b0e40318e818f65708d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 04/67] fix: do not change numpy's global error state when
 computing eig_L

np.seterr(divide='raise') was left on for the rest of the process.
---
 dppy/finite_dpps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 7229633..15ff74c 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -658,8 +658,8 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            np.seterr(divide='raise')
-            self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            with np.errstate(divide='raise'):
+                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -925,8 +925,8 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    np.seterr(divide='raise')
-                    self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    with np.errstate(divide='raise'):
+                        self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From 02f45492a572ba83fb28b81dd6f5301c6d72b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 05/67] fix: accept the documented q_func, max_iter and
 max_iter_size_rejection

vfx_sampling_precompute_constants, unlike its alpha counterpart, rejected
every parameter meant for the sampling loop with a TypeError.
---
 dppy/intermediate_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 7844c50..e62b706 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -131,7 +131,8 @@ def vfx_sampling_precompute_constants(X_data,
                                       rls_oversample_dppvfx=4.0,
                                       rls_oversample_bless=4.0,
                                       nb_iter_bless=None,
-                                      verbose=True):
+                                      verbose=True,
+                                      **kwargs):
     """Pre-compute quantities necessary for the vfx rejection sampling loop, such as the inner Nystrom approximation,
     and the RLS of all elements in L.
 
-- 
2.43.0


From ee5640e58287903178f2015e4fab998b317fc1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 06/67] fix: do not reuse vfx/alpha pre-computed constants for
 another target law

After sample_exact_k_dpp, sample_exact(mode='vfx'/'alpha') silently sampled
from DPP(alpha_star L) instead of DPP(L), and switching between the vfx and
alpha modes on the same object raised an AttributeError.
---
 dppy/exact_sampling.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 25267eb..6d6f66d 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -12,7 +12,9 @@
 import numpy as np
 import scipy.linalg as la
 from dppy.utils import inner1d, check_random_state, get_progress_bar
-from dppy.intermediate_sampling import (vfx_sampling_precompute_constants,
+from dppy.intermediate_sampling import (_IntermediateSampleInfo,
+                                        _IntermediateSampleInfoAlphaRescale,
+                                        vfx_sampling_precompute_constants,
                                         vfx_sampling_do_sampling_loop,
                                         alpha_dpp_sampling_precompute_constants,
                                         alpha_dpp_sampling_do_sampling_loop)
@@ -761,7 +763,11 @@ def dpp_vfx_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # Pre-computed constants are specific to the target DPP(alpha_star * L)
+    desired_size = params.get('desired_expected_size', None)
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfo)
+        or (intermediate_sample_info.alpha_star != 1.0 if desired_size is None
+            else not np.isclose(intermediate_sample_info.s, desired_size))):
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -870,7 +876,10 @@ def alpha_dpp_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # Pre-computed constants are specific to the target DPP(alpha * L)
+    desired_size = params.get('desired_expected_size', None)
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfoAlphaRescale)
+        or intermediate_sample_info.k != (-1 if desired_size is None else desired_size)):
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -993,7 +1002,7 @@ def k_dpp_vfx_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if (intermediate_sample_info is None
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfo)
         or not np.isclose(intermediate_sample_info.s, size).item()):
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
@@ -1132,7 +1141,8 @@ def alpha_k_dpp_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None or intermediate_sample_info.k != size:
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfoAlphaRescale)
+        or intermediate_sample_info.k != size):
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                         X_data=X_data,
                                         eval_L=eval_L,
-- 
2.43.0


From 9b79c3f9a2816fc67831b55a90566f7c5f2a369f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 07/67] fix: bless looped forever on small data sets

With n * rls_oversample <= 10 the expected size of the initial dictionary can
never exceed 10, and lam_init could also fall below lam_final, or the sequence
of lambdas be empty for n=1.
---
 dppy/bless.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 329f52c..b657be9 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -220,13 +220,14 @@ def bless(X_data,
     n, d = X_data.shape
 
     if nb_iter_bless is None:
-        nb_iter_bless = np.ceil(np.log(n)).astype('int')
+        nb_iter_bless = max(np.ceil(np.log(n)).astype('int'), 1)
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
-    lam_init = n
+    lam_init = max(n, lam_final)
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
-    while ucb_init.sum() <= 10:
-        lam_init /= 1.25
+    # never go below lam_final: ucb_init.sum() may stay below 10, e.g. for small n
+    while ucb_init.sum() <= 10 and lam_init > lam_final:
+        lam_init = max(lam_init / 1.25, lam_final)
         ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
     rng = check_random_state(random_state)
-- 
2.43.0


From dcdc0472bb42215590c8bd35d7ccfb2822308781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 08/67] fix: alpha sampler always failed for k-DPPs of size 1

bless_size started from an infinite lambda.
---
 dppy/bless.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index b657be9..a0567f1 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -346,7 +346,8 @@ def bless_size(X_data,
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
 
-    lam_init = diag_norm.sum() / (size_final - 1.0)
+    # deff(lam) <= trace(L) / lam, target deff(lam_init) <= size_final - 1 (or 0.5 if size_final=1)
+    lam_init = diag_norm.sum() / max(size_final - 1.0, 0.5)
     lam_max = lam_init
 
     lam_final = 1
-- 
2.43.0


From 6d59287dec5235857a41fc8d71150e2e4cf74eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 09/67] fix: MCMC samplers stopped as soon as T_max was *not*
 exceeded

The comparison was reversed, so any T_max stopped the chain after one step, and
the chains of 'E' and 'zonotope' were then padded with spurious rows of zeros.
---
 dppy/mcmc_sampling.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5dba753..7306950 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -234,7 +234,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -317,7 +317,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
     return chain
@@ -379,6 +379,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
     # Evaluate running time...
     t_start = time.time() if T_max else 0
 
+    it = 0
     for it in range(1, nb_iter):
 
         # With proba 1/2 try to swap 2 elements
@@ -406,10 +407,10 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain[it] = S0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
-    return chain.tolist()
+    return chain[:it + 1].tolist()
 
 
 ############
@@ -576,6 +577,7 @@ def zonotope_sampler(A_zono, **params):
 
     t_start = time.time() if T_max else 0
 
+    it = 0
     for it in range(1, nb_iter):
 
         # Take uniform direction d defining D_x0
@@ -608,7 +610,7 @@ def zonotope_sampler(A_zono, **params):
                 chain[it] = B_x0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.time() - t_start > T_max:
                 break
 
-    return chain.tolist()
+    return chain[:it + 1].tolist()
-- 
2.43.0


From 26ee09ef65f2a573834d8f035cc38e067dc19b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 10/67] fix: acceptance ratio of the delete move of the
 add-exchange-delete sampler

The ratio of the proposals was inverted: the DPP was not the stationary law of
the chain. Add from S to S+t is proposed w.p. 0.5 (1-|S|/N)^2 / (N-|S|), the
reverse delete w.p. 0.5 ((|S|+1)/N)^2 / (|S|+1), hence a delete from |S|=k must
be accepted with ratio (N-k+1) / k.
---
 dppy/mcmc_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 7306950..72c3571 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -223,7 +223,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
             det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * size_S0 / (N - (size_S0 - 1)):
+            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
                 S0, det_S0 = S1, det_S1
                 chain.append(S1)
                 size_S0 -= 1
-- 
2.43.0


From d9df12b448fef3289b3d1afc0110a544493f6168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 11/67] fix: AED and E samplers crashed when the current sample
 is the whole ground set

---
 dppy/mcmc_sampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 72c3571..81183c7 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -187,8 +187,8 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         S1 = S0.copy()  # S1 = S0
         # Pick one element s in S_0 by index uniformly at random
         s_ind = rng.choice(size_S0 if size_S0 else N)  # , size=1)[0]
-        # Unif t in [N]-S0
-        t = rng.choice(np.delete(ground_set, S0))
+        # Unif t in [N]-S0, when S0=[N] there is no such t and only deletion may be proposed
+        t = rng.choice(np.delete(ground_set, S0)) if size_S0 < N else None
 
         U = rng.rand()
         ratio = size_S0 / N  # Proportion of items in current sample
@@ -382,8 +382,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
     it = 0
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements
-        if rng.rand() < 0.5:
+        # With proba 1/2 try to swap 2 elements, there is nothing to swap when S0=[N]
+        if rng.rand() < 0.5 and size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From be0a7bbc3f18506c9a2b06a7b3ecf0a672d94640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 12/67] fix: refuse to compute L when some eigenvalue of K
 equals 1 up to rounding errors

K with such eigenvalues, given through K itself, had its (eigh computed)
eigenvalues slightly off 1 and a meaningless, possibly indefinite, L was
silently used.
---
 dppy/finite_dpps.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 15ff74c..2c69c11 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -658,8 +658,7 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            with np.errstate(divide='raise'):
-                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            self._compute_L_eig_vals_from_K_eig_vals()
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -826,6 +825,15 @@ class FiniteDPP:
         self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs[:, non_null]
                                                 / np.sqrt(self.L_eig_vals))
 
+    def _compute_L_eig_vals_from_K_eig_vals(self):
+        """ eig_L = eig_K/(1-eig_K), raise ``FloatingPointError`` when some eig_K equals 1 up to rounding errors, since L does not exist in that case
+        """
+        gap = 1.0 - self.K_eig_vals
+        # as in np.linalg.matrix_rank
+        if np.any(gap <= gap.size * np.finfo(float).eps):
+            raise FloatingPointError('eig_L = eig_K/(1-eig_K), K kernel has some eig_K very close to 1')
+        self.L_eig_vals = self.K_eig_vals / gap
+
     def compute_K(self, msg=False):
         """ Compute the correlation kernel :math:`\\mathbf{K}` from the original parametrization of the :class:`FiniteDPP` object.
 
@@ -925,8 +933,7 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    with np.errstate(divide='raise'):
-                        self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    self._compute_L_eig_vals_from_K_eig_vals()
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From 48628f3ee921247ef1b4a7eac4f32f93973d35da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 13/67] fix: Aldous-Broder sampler crashed with numpy>=1.24

np.int was removed from numpy.
---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index ee0f80f..e4fedb5 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -118,7 +118,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     visited[n0] = True
     nb_nodes_in_tree = 1
 
-    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=np.int)
+    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
 
     while nb_nodes_in_tree < nb_nodes:
 
-- 
2.43.0


From 0b526559fa943946c91974f39ac361c7696bacd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 14/67] fix: UST.sample raised TypeError instead of ValueError
 for invalid modes

---
 dppy/exotic_dpps.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c0ab69e..ac49f55 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -585,11 +585,10 @@ class UST:
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
         else:
-            err_print = '\n'.join(
-                'Invalid sampling mode',
-                'Chose from: {}'.format(self._sampling_modes.values()),
-                'Given {}'.format(mode))
-            raise ValueError()
+            err_print = ['Invalid sampling mode',
+                         'Chose from: {}'.format(self._sampling_modes.values()),
+                         'Given {}'.format(mode)]
+            raise ValueError('\n'.join(err_print))
 
         self.list_of_samples.append(sampl)
 
-- 
2.43.0


From e09add7ecc55e634dfc1e11e0c3dd482012a2fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 15/67] fix: UST.sample rejected its documented modes GS_bis
 and KuTa12

---
 dppy/exotic_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index ac49f55..e77d84b 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -490,7 +490,7 @@ class UST:
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
-                                'spectral-method': ['GS'],
+                                'spectral-method': ['GS', 'GS_bis', 'KuTa12'],
                                 'projection-K-kernel': ['Schur', 'Chol']}
         self.list_of_samples = []
 
-- 
2.43.0


From cc58e3bfd993f7abffe4c9980075f43805f12ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 16/67] fix: virtual descent process ignored the intended role
 of x_0

x_0 is the probability that a position is fixed by the virtual permutation, so
that the density of descents is (1-x_0^2)/2 as stated by _bernoulli_param.
Positions were marked as fixed with probability 1-2x_0(1-x_0), which agrees
for x_0=1/2 and 1 only, e.g. x_0=0 never had any descent.
---
 dppy/exotic_dpps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index e77d84b..a58feee 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -263,12 +263,13 @@ class VirtualDescentProcess(Descent):
         rng = check_random_state(random_state)
 
         self.size = size
+        # Record the fixed points of the virtual permutation, with density x_0
+        Y = rng.rand(self.size + 1) < self.x_0
+
         sigma = uniform_permutation(self.size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        Y = rng.binomial(n=2, p=self.x_0, size=self.size + 1) != 1
-
         descent = [i for i in range(self.size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
-- 
2.43.0


From d11a35a4bea6e337372ad97d5c54baad98e454db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 17/67] fix: limit_shape truncated its values when evaluated at
 integers

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index e4fedb5..44d76f0 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -274,7 +274,7 @@ def limit_shape(x):
         - :cite:`Ker96`
     """
 
-    w_x = np.zeros_like(x)
+    w_x = np.zeros_like(x, dtype=float)
 
     abs_x_gt2 = np.abs(x) >= 2.0
 
-- 
2.43.0


From 8bf95e813b905aa1dea4c244c236375c0ce34528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 18/67] fix: negative beta raised AttributeError instead of
 ValueError

---
 dppy/beta_ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 09d3fd9..c5731ae 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -50,7 +50,7 @@ class BetaEnsemble(metaclass=ABCMeta):
     def __init__(self, beta=2):
 
         if not (beta >= 0):
-            raise ValueError('`beta` must be >=0. Given: {}'.format(self.beta))
+            raise ValueError('`beta` must be >=0. Given: {}'.format(beta))
         self.beta = beta
 
         # Split object name at uppercase
-- 
2.43.0


From e2dfc3d846e95eb6056b0acd03b7d2ef94af8e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 19/67] fix: normalize_points overwrote the points it was given

Normalizing a sample taken from list_of_samples corrupted the stored sample,
a second call (or plot/hist) was then normalizing it twice.
---
 dppy/beta_ensembles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index c5731ae..fb8775d 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -260,14 +260,14 @@ class HermiteEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit N(0,2) ref measure of the full matrix model
-            points -= self.params['loc']
-            points /= np.sqrt(0.5) * self.params['scale']
+            points = points - self.params['loc']
+            points = points / (np.sqrt(0.5) * self.params['scale'])
         else:  # 'full'
             pass
 
         if self.beta > 0:
             # Normalize to fit the semi-circle distribution
-            points /= np.sqrt(self.beta * self.params['size_N'])
+            points = points / np.sqrt(self.beta * self.params['size_N'])
         else:
             pass
 
@@ -590,13 +590,13 @@ class LaguerreEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit Gamma(*,2) refe measure of the full matrix model
-            points /= 0.5 * self.params['scale']
+            points = points / (0.5 * self.params['scale'])
         else:  # self.sampling_mode == 'full':
             pass
 
         if self.beta > 0:
             # Normalize to fit the Marcenko-Pastur distribution
-            points /= self.beta * self.params['size_M']
+            points = points / (self.beta * self.params['size_M'])
         else:
             pass
             # set a warning, won't concentrate as semi-circle, they are i.i.d.
-- 
2.43.0


From 924c2e5a8b23c9b110f1453c789ecb25ae571c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 20/67] fix: full matrix models with beta=4 returned each of
 the N points twice

The 2Nx2N self-dual matrices have doubly degenerate eigenvalues.
---
 dppy/random_matrices.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 0b7db3f..4470061 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -44,7 +44,10 @@ def hermite_sampler_full(N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+    eig_vals = la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+
+    # eigenvalues of self-dual matrices come in pairs
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def semi_circle_law(x, R=2.0):
@@ -110,7 +113,10 @@ def laguerre_sampler_full(M, N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A.dot(A.conj().T))
+    eig_vals = la.eigvalsh(A.dot(A.conj().T))
+
+    # eigenvalues of self-dual matrices come in pairs
+    return eig_vals[::2] if beta == 4 else eig_vals
 
 
 def marcenko_pastur_law(x, M, N, sigma=1.0):
@@ -193,7 +199,10 @@ def jacobi_sampler_full(M_1, M_2, N, beta=2,
     X_tmp = X.dot(X.conj().T)
     Y_tmp = Y.dot(Y.conj().T)
 
-    return la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+    eig_vals = la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+
+    # eigenvalues of self-dual matrices come in pairs
+    return np.sort(eig_vals)[::2] if beta == 4 else eig_vals
 
 
 def wachter_law(x, M_1, M_2, N):
-- 
2.43.0


From e1b66aee40cbdb59875960a1a51e58c9da1c0927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 21/67] fix: haar_mode='Hermite' did not sample from the Haar
 measure

The phases (signs if beta=1) of the eigenvectors computed by eigh are
conventional, not uniform, so that the matrix formed with them was not Haar
distributed, e.g. with N=1 the single point was always 1.
---
 dppy/random_matrices.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 4470061..13cbb12 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -301,6 +301,12 @@ def circular_sampler_full(N, beta=2, haar_mode='QR',
 
         _, U = la.eigh(A + A.conj().T)
 
+        # Eigenvectors are defined up to a phase, which must be uniform for U to be Haar distributed
+        if beta == 1:
+            U *= rng.choice([-1.0, 1.0], size=N)
+        elif beta == 2:
+            U = U * np.exp(2j * np.pi * rng.rand(N))
+
     elif haar_mode == 'QR':
 
         if beta == 1:  # COE
-- 
2.43.0


From 5da9a5a2b049ebe2c4f5631c4a3b7a98eaac9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 22/67] fix: non boolean `projection` raised AttributeError
 instead of ValueError

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 2c69c11..496e285 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -195,7 +195,7 @@ class FiniteDPP:
 
         if not isinstance(self.projection, bool):
             err_print = ['`projection` argument is not boolean',
-                         'Given: {}'.format(self.is_projection)]
+                         'Given: {}'.format(self.projection)]
             raise ValueError('\n'.join(err_print))
 
         K_type, K_params = 'correlation', {'K', 'K_eig_dec', 'A_zono'}
-- 
2.43.0


From b2c8c37db86634a6bb368cbd6682c9fa61e87b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 23/67] fix: rejection bounds were NaN when exactly one of the
 two Jacobi parameters is -1/2

The mode is then +/-1 and 0*log(0) made the bound NaN, all proposals were rejected
and the last one, drawn from the arcsine distribution, was returned.
---
 dppy/multivariate_jacobi_ope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f844d2..50b7bac 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -12,7 +12,7 @@ import numpy as np
 import itertools as itt
 
 from scipy import stats
-from scipy.special import beta, betaln, factorial, gamma, gammaln
+from scipy.special import beta, betaln, factorial, gamma, gammaln, xlogy
 from scipy.special import eval_jacobi
 # from scipy.special import logsumexp
 import matplotlib.pyplot as plt
@@ -890,8 +890,8 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 (a + b + 1) * np.log(2) + betaln(a + 1, b + 1)
             bounds[0, non_arcsine] =\
                 np.log(np.pi)\
-                + (0.5 + a) * np.log(1 - mode)\
-                + (0.5 + b) * np.log(1 + mode)\
+                + xlogy(0.5 + a, 1 - mode)\
+                + xlogy(0.5 + b, 1 + mode)\
                 - log_square_norm_P_0
         else:
             square_norm_P_0 = 2**(a + b + 1) * beta(a + 1, b + 1)
-- 
2.43.0


From 5191728c3e382cb841b45d46aaf7b55158a2a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 24/67] fix: MultivariateJacobiOPE crashed when jacobi_params
 is an array_like but not an array

---
 dppy/multivariate_jacobi_ope.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 50b7bac..1f49286 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -114,6 +114,7 @@ class MultivariateJacobiOPE:
         if type(N) is not int or N < 1:
             raise ValueError('Number of points N={} < 1'.format(N))
 
+        jacobi_params = np.asarray(jacobi_params)
         dim = jacobi_params.size // 2
 
         if dim == 1 and not np.all(jacobi_params > -1):
-- 
2.43.0


From eaac4e9682f310665ece0e43cb93c228b99c0ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 25/67] fix: MultivariateJacobiOPE.plot crashed in dimension 1

---
 dppy/multivariate_jacobi_ope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f49286..03cc653 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -458,7 +458,7 @@ class MultivariateJacobiOPE:
 
         tols = 5e-2 * np.ones_like(self.jacobi_params)
         tols = np.zeros_like(self.jacobi_params)
-        tols[1, 0] = 8e-2
+        tols[1:, 0] = 8e-2
 
         weights = np.ones(len(sample))
 
-- 
2.43.0


From 3049c1217079f2d0f5ef1057b73646963a75f626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 26/67] fix: chain rule sampler in dimension 1 used invalid
 rejection bounds for |a| or |b| > 1/2

---
 dppy/multivariate_jacobi_ope.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 03cc653..20565b0 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -334,6 +334,13 @@ class MultivariateJacobiOPE:
         a_05, b_05 = a + 0.5, b + 0.5
         d = self.dim
 
+        if d == 1 and np.any(np.abs(self.jacobi_params) > 0.5):
+            # The rejection bounds are only valid for |a|, |b| <= 1/2
+            # Any point of the Jacobi ensemble, chosen uniformly, has distribution 1/N K(x,x) w(x)
+            points = tridiagonal_model(a=a[0] + 1, b=b[0] + 1,
+                                       size=self.N, random_state=rng)
+            return 1.0 - 2.0 * rng.choice(points, size=1)
+
         ind = rng.randint(self.N)
         k = self.ordering[ind]
         Pk_square_norm = self.square_norms_multiD_polynomials[ind]
-- 
2.43.0


From 08a9a8c04fc047ed2e17bdac2f42e1856c416f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 27/67] fix: sign of the proposal correction in the acceptance
 ratio of MALA

The ratio q(y,x)/q(x,y) was inverted, so that MALA targeted exp(-3V) instead of exp(-V).
---
 dppy/beta_ensemble_polynomial_potential_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f162505..8fdba7e 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -328,8 +328,8 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
         acceptance = Vx - Vy\
                     + 0.5\
                         / sigma**2\
-                        * ((x_ - y + 0.5 * sigma**2 * grad_Vy)**2
-                            - (y - x_ + 0.5 * sigma**2 * grad_Vx)**2)
+                        * ((y - x_ + 0.5 * sigma**2 * grad_Vx)**2
+                            - (x_ - y + 0.5 * sigma**2 * grad_Vy)**2)
 
         if np.log(rng.rand()) < acceptance:
             x_ = y
-- 
2.43.0


From ddb3e40914acbe1c2f1df08bfaa397dbdd1d8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 28/67] fix: conditionals of the b coefficients with shape
 parameter <= 1

The cubic term of P (V of degree 6) was ignored, negative P[1] gave a crash or a
wrong law, and the last rejected proposal was returned after 100 trials.
---
 ...beta_ensemble_polynomial_potential_core.py | 60 ++++++-------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 8fdba7e..7278469 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -128,44 +128,24 @@ def find_a_b_convex_gen_gamma(shape, P, mode):
     return np.array([b, a])  # b < 0 < a
 
 
-def trunc_gaussian_sampler(b, mu, var, random_state=None):
-
-    rng = check_random_state(random_state)
-
-    it_max = int(1e7)
-
-    for it in range(1, it_max + 1):
-        X = rng.normal(loc=b, scale=np.sqrt(var))
-        U = rng.rand()
-        if (np.log(U) < -(b - mu) * (X - b) / var) and (X > b):
-            break
-    else:  # if no acceptation
-        print('gen_gamma with alpha=1 not accepted\
-                after {} iterations'.format(it))
-        X = 1e-7
-
-    return X, it
-
-
-def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
+def gen_gamma_alpha_leq_1_sampler(shape, P, random_state=None):
+    """ Sample from :math:`\\pi(x)\\propto x^{\\alpha-1} \\exp^{-P(x)}`, with :math:`x>0, \\alpha\\leq 1` and :math:`P` convex, by rejection.
 
+    Since :math:`P` lies above its tangent at any point :math:`m>0`, :math:`\\pi` is dominated by a Gamma distribution.
+    The optimal tangent point satisfies :math:`m P'(m) = \\alpha`.
+    """
     rng = check_random_state(random_state)
 
-    it_max = int(1e2)
-    for it in range(1, it_max + 1):
+    roots = (np.poly1d([1, 0]) * P.deriv(m=1) - shape).roots
+    m = np.max(roots[np.isreal(roots)].real)
 
-        X = rng.gamma(shape=shape, scale=1 / P[1], size=1)
+    it = 0
+    while True:
+        it += 1
+        X = rng.gamma(shape=shape, scale=m / shape)
         U = rng.rand()
-        if np.log(U) < -P[2] * X**2:
-            break
-
-    else:
-        print('gen_gamma with alpha<1 not accepted\
-                after {} iterations'.format(it))
-        pass
-        # X = ...
-
-    return X, it
+        if np.log(U) <= P(m) + shape / m * (X - m) - P(X):
+            return X, it
 
 
 def sampler_exact_convex_quartic(P, shape=None, random_state=None):
@@ -210,16 +190,10 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
             return rng.gamma(shape, 1 / P[1]), 0
 
         else:
-            if shape < 1.0:  # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode
-                return gen_gamma_alpha_lt_1_sampler(shape, P,
-                                                    random_state=rng)
-
-            elif shape == 1.0 and P[2]:
-                # x^0 exp(-(beta x^2 + gamma x)) = truncated Gaussian [0, oo]
-                return trunc_gaussian_sampler(b=0.0,
-                                              mu=-0.5 * P[1] / P[2],
-                                              var=0.5 / P[2],
-                                              random_state=rng)
+            if shape <= 1.0:
+                # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode a priori
+                return gen_gamma_alpha_leq_1_sampler(shape, P,
+                                                     random_state=rng)
 
         # else there exists a mode, use [Dev12] domination
         mode = find_mode_convex_gen_gamma(shape, P)
-- 
2.43.0


From a15f036841aaa66dce3d43c205fe1d93de488ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 29/67] fix: cdf of equilibrium measures overwrote its argument
 and crashed on scalars

---
 dppy/beta_ensemble_polynomial_potential_core.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 7278469..27acb1c 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -507,9 +507,7 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
 
     def cdf(x):
 
-        x[x < -a] = -a
-        x[x > a] = a
-        X = np.arcsin(x / a)
+        X = np.arcsin(np.clip(x, -a, a) / a)
         # return g_4 * a2 / (8 * np.pi) * ((X + np.pi) * (a2 + 4 * b2) / 4
         #                                  - a2 * np.sin(4 * X) / 8
         #                                  + b2 * np.sin(2 * X))
@@ -586,9 +584,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     if m == 2:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**4 / (8 * np.pi) \
                    * (3 * (X + np.pi / 2)
                       + np.sin(2 * X)
@@ -597,9 +593,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     elif m == 3:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
-            X = np.arcsin(x / a)
+            X = np.arcsin(np.clip(x, -a, a) / a)
             return m * t * a**6 / (16 * np.pi) \
                    * (5 * (X + np.pi / 2)
                       + 5 / 4 * np.sin(2 * X)
-- 
2.43.0


From fbc545e23adcb48bc868b58485d69682fb4293a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 30/67] fix: BetaEnsemblePolynomialPotential overwrote the
 constant term of the potential of the caller

---
 dppy/beta_ensemble_polynomial_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 4dd5275..6862d14 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -22,7 +22,7 @@ class BetaEnsemblePolynomialPotential(object):
     def __init__(self, beta, potential_V, name=None):
 
         self.beta = beta
-        self.V = potential_V
+        self.V = np.poly1d(np.array(potential_V))
 
         if not (self.beta > 0):
             raise ValueError('beta = {} <= 0'.format(beta))
-- 
2.43.0


From fe61018c080af3e70ced081500866fa08b45234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:59 +0000
Subject: [PATCH 31/67] fix: cdf_equilibrium_x2_x4 was wrong in the 2-cut
 regime

---
 dppy/beta_ensemble_polynomial_potential_core.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 27acb1c..0aef94a 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -500,6 +500,21 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
         V(x) = V_t(x) = \\frac{g_2}{2} x^2 + \\frac{g_4}{4} x^4
     """
 
+    if not g_2 > -4 * np.sqrt(g_4 / 4):
+        # 2-cut regime, x^2 has a semi-circle distribution, cf equilibrium_x2_x4
+        b2, a2 = (-g_2 + 4 * np.sqrt(g_4 / 4) * np.array([-1, 1])) / g_4
+
+        def cdf(x):
+
+            z = np.clip((2 * np.square(x) - a2 - b2) / (a2 - b2), -1, 1)
+            cdf_x2 = 0.5 + (z * np.sqrt(1 - z**2) + np.arcsin(z)) / np.pi
+
+            return 0.5 * (1 + np.sign(x) * cdf_x2)
+
+        support = np.sqrt(a2) * np.array([-1, 1])
+
+        return cdf, support
+
     a2 = 2 / (3 * g_4) * (np.sqrt(g_2**2 + 12 * g_4) - g_2)
     a = np.sqrt(a2)
 
-- 
2.43.0


From dafa570418de7c5b663d381656c044816f9d9b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 32/67] fix: bless returned a dictionary for lam_init instead
 of lam_final when nb_iter_bless=1

---
 dppy/bless.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index a0567f1..237697b 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -244,7 +244,8 @@ def bless(X_data,
                 lam=lam_init,
                 rls_oversample=rls_oversample_param)
 
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    # at least 2 values, otherwise lam_final is never reached
+    lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0


From bc0a7fbd5117abe7e75291770523c495dbc6aa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 33/67] fix: bless_size raised IndexError instead of ValueError
 when the expected size is too small

---
 dppy/bless.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dppy/bless.py b/dppy/bless.py
index 237697b..e65ef96 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -354,6 +354,10 @@ def bless_size(X_data,
     lam_final = 1
     lam_min = lam_final
 
+    if lam_init <= lam_final:
+        raise ValueError('The expected sample size is smaller than the desired size_final={},'
+                         ' please consider decreasing it or changing L.'.format(size_final))
+
     if nb_iter_bless is None:
         nb_iter_bless = np.ceil(np.log2(lam_init)).astype('int')
     lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
-- 
2.43.0


From 1cf042f39fccb1fe69eccf4c0d7401c5f224bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 34/67] fix: alpha sampler reused the rescaling searched for a
 k-DPP instead of the one for desired_expected_size

---
 dppy/exact_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 6d6f66d..d2cd39e 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -879,7 +879,8 @@ def alpha_dpp_sampler(intermediate_sample_info,
     # Pre-computed constants are specific to the target DPP(alpha * L)
     desired_size = params.get('desired_expected_size', None)
     if (not isinstance(intermediate_sample_info, _IntermediateSampleInfoAlphaRescale)
-        or intermediate_sample_info.k != (-1 if desired_size is None else desired_size)):
+        or intermediate_sample_info.k != (-1 if desired_size is None else desired_size)
+        or intermediate_sample_info.alpha_switches > 0):  # alpha_hat was adapted to a k-DPP
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
-- 
2.43.0


From ee814afbc3c2237855f5ecac0bb7ae7fd482961a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 35/67] fix: bless_size returned the initial dictionary when
 nb_iter_bless=1

---
 dppy/bless.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index e65ef96..3897861 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -360,7 +360,8 @@ def bless_size(X_data,
 
     if nb_iter_bless is None:
         nb_iter_bless = np.ceil(np.log2(lam_init)).astype('int')
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    # at least 2 values, otherwise lam_final is never reached
+    lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
 
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
-- 
2.43.0


From 8b29718060dfa7a590370cf2b0299537e237c4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 36/67] fix: rounding errors in the sequence of lambdas of
 bless made it refuse valid inputs

---
 dppy/bless.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 3897861..12e71bf 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -245,7 +245,9 @@ def bless(X_data,
                 rls_oversample=rls_oversample_param)
 
     # at least 2 values, otherwise lam_final is never reached
-    lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
+    lam_sequence = np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2))
+    # must be non decreasing despite rounding errors, e.g. if lam_init = lam_final
+    lam_sequence = list(np.sort(np.clip(lam_sequence, lam_final, lam_init)))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0


From 43211973a70658991f75a2f7db03fdb276038f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 37/67] fix: invalid exact sampling mode was accepted when no
 eigenvector is selected

---
 dppy/exact_sampling.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index d2cd39e..72c2a73 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -417,6 +417,14 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
 
     rng = check_random_state(random_state)
 
+    if mode not in ('GS', 'GS_bis', 'KuTa12'):
+        str_list = ['Invalid sampling mode, choose among:',
+                    '- "GS" (default)',
+                    '- "GS_bis"',
+                    '- "KuTa12"',
+                    'Given "{}"'.format(mode)]
+        raise ValueError('\n'.join(str_list))
+
     if eig_vecs.shape[1]:
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
@@ -426,16 +434,8 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
         elif mode == 'GS_bis':  # Slight modif of 'GS'
             sampl = proj_dpp_sampler_eig_GS_bis(eig_vecs, size, rng)
 
-        elif mode == 'KuTa12':  # cf Kulesza-Taskar
+        else:  # mode == 'KuTa12', cf Kulesza-Taskar
             sampl = proj_dpp_sampler_eig_KuTa12(eig_vecs, size, rng)
-
-        else:
-            str_list = ['Invalid sampling mode, choose among:',
-                        '- "GS" (default)',
-                        '- "GS_bis"',
-                        '- "KuTa12"',
-                        'Given "{}"'.format(mode)]
-            raise ValueError('\n'.join(str_list))
     else:
         sampl = []
 
-- 
2.43.0


From c92c0f18b46ca3fe04837ba56b3d0b40de7989e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 38/67] fix: k-DPP of size 0 raised IndexError instead of
 returning the empty sample

---
 dppy/exact_sampling.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 72c2a73..44539a2 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1304,11 +1304,12 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
     ind_selected = np.zeros(k, dtype=int)
     for n in range(eig_vals.size, 0, -1):
 
+        if k == 0:
+            break
+
         if rng.rand() < eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]:
             k -= 1
             ind_selected[k] = n - 1
-            if k == 0:
-                break
 
     return eig_vecs[:, ind_selected]
 
-- 
2.43.0


From 6f4ccf30f2e73c47446d4f951d09d9e639fc5c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 39/67] fix: k-DPP of negative size raised IndexError instead
 of ValueError

---
 dppy/finite_dpps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 496e285..277e124 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -543,6 +543,9 @@ class FiniteDPP:
 
         rng = check_random_state(params.get('random_state', None))
 
+        if size < 0:
+            raise ValueError('size k={} < 0'.format(size))
+
         self.sampling_mode = mode
         self.size_k_dpp = size
 
-- 
2.43.0


From bd2f355a7e476cf9c16bcff60e5116ffe1676a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 40/67] fix: exchange sampler ignored size=0 and accepted
 s_init of another size

---
 dppy/mcmc_sampling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 81183c7..8510b9f 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -57,6 +57,8 @@ def dpp_sampler_mcmc(kernel, mode='AED', **params):
         if s_init is None:
             s_init = initialize_AD_and_E_sampler(kernel, size,
                                                  random_state=rng)
+        elif size is not None and len(s_init) != size:
+            raise ValueError('size={} != len(s_init)={}'.format(size, len(s_init)))
         sampl = basis_exchange_sampler(kernel, s_init, nb_iter, T_max,
                                        random_state=rng)
 
@@ -118,7 +120,7 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
             break
         else:
             S0 = rng.choice(N,
-                            size=size if size else rng.randint(1, N + 1),
+                            size=rng.randint(1, N + 1) if size is None else size,
                             replace=False)
             det_S0 = det_ST(kernel, S0)
     else:
@@ -382,8 +384,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
     it = 0
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements, there is nothing to swap when S0=[N]
-        if rng.rand() < 0.5 and size < N:
+        # With proba 1/2 try to swap 2 elements, there is nothing to swap when S0=[] or [N]
+        if rng.rand() < 0.5 and 0 < size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From 38da86598a0a1fe99da82d891cacb9576c022ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 41/67] fix: eigendecompositions with different numbers of
 eigenvalues and eigenvectors were accepted

---
 dppy/finite_dpps.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 277e124..101ce94 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -128,6 +128,7 @@ class FiniteDPP:
         else:
             self.K_eig_vals = is_in_01(e_vals)
         self.eig_vecs = is_orthonormal_columns(e_vecs)
+        self.__check_eig_dec_sizes(e_vals, e_vecs)
 
         self.A_zono = is_full_row_rank(params.get('A_zono', None))
 
@@ -144,6 +145,7 @@ class FiniteDPP:
             self.L_eig_vals = is_geq_0(e_vals)
         if self.eig_vecs is None:  # K_eig_vecs = L_eig_vecs
             self.eig_vecs = is_orthonormal_columns(e_vecs)
+        self.__check_eig_dec_sizes(e_vals, e_vecs)
 
         # L' "dual" likelihood kernel, L' = Phi Phi.T, Phi = L_gram_factor
         self.L_gram_factor = params.get('L_gram_factor', None)
@@ -189,6 +191,13 @@ class FiniteDPP:
         return '\n'.join(str_info)
 
     # Check routine
+    @staticmethod
+    def __check_eig_dec_sizes(e_vals, e_vecs):
+        # Check there are as many eigenvalues as eigenvectors
+        if e_vals is not None and np.size(e_vals) != e_vecs.shape[1]:
+            raise ValueError('{} eigenvalues != {} eigenvectors'.format(
+                np.size(e_vals), e_vecs.shape[1]))
+
     def __check_args_coherence(self):
         # Check coherence of initialization parameters of the DPP:
         # kernel_type, projection and params.
-- 
2.43.0


From fdc7612173403db6bfc354f01510cf566f1c0fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 42/67] fix: MultivariateJacobiOPE accepted Jacobi parameters
 of the wrong shape

---
 dppy/multivariate_jacobi_ope.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 20565b0..8495a39 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -116,6 +116,8 @@ class MultivariateJacobiOPE:
 
         jacobi_params = np.asarray(jacobi_params)
         dim = jacobi_params.size // 2
+        if dim < 1 or jacobi_params.shape != (dim, 2):
+            raise ValueError('Jacobi parameters must be of shape (d, 2), given {}'.format(jacobi_params.shape))
 
         if dim == 1 and not np.all(jacobi_params > -1):
             raise ValueError('d=1, Jacobi parameters must be > -1')
-- 
2.43.0


From da46074ae576377215eea9e2d4010ade9d27b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 43/67] fix: BetaEnsemblePolynomialPotential accepted constant
 potentials

---
 dppy/beta_ensemble_polynomial_potential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 6862d14..0a17453 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -38,6 +38,9 @@ class BetaEnsemblePolynomialPotential(object):
         if self.V[5]:
             raise ValueError('Potentials V = ... + g_5 x^5 + ... not supported, given g_5={}'.format(self.V[5]))
 
+        if self.V.order == 0:
+            raise ValueError('V is constant, it must have positive even degree')
+
         if self.V.order % 2:
             raise ValueError('V has odd degree deg(V)={}'.format(self.V.order))
 
-- 
2.43.0


From 92838fe586aaf353e09769b04fdf21ddafd4eab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:36 +0000
Subject: [PATCH 44/67] fix: a failed sampling call of a beta ensemble changed
 how the last sample is normalized

---
 dppy/beta_ensembles.py | 113 ++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 58 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index fb8775d..59c6535 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -151,20 +151,20 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'loc': 0.0, 'scale': np.sqrt(2.0), 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(0,2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
-            sampl = rm.hermite_sampler_full(N=self.params['size_N'],
+            sampl = rm.hermite_sampler_full(N=params['size_N'],
                                             beta=self.beta,
                                             random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -203,23 +203,23 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'loc': loc, 'scale': scale, 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(mu, sigma^2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
             sampl = rm.mu_ref_normal_sampler_tridiag(
-                        loc=self.params['loc'],
-                        scale=self.params['scale'],
+                        loc=params['loc'],
+                        scale=params['scale'],
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -420,8 +420,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if size_M >= size_N:
             # Define the parameters of the associated Gamma distribution
             shape, scale = 0.5 * self.beta * (size_M - size_N + 1), 2.0
@@ -432,26 +430,27 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'],                                       size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.laguerre_sampler_full(M=self.params['size_M'],
-                                             N=self.params['size_N'],
+            sampl = rm.laguerre_sampler_full(M=params['size_M'],
+                                             N=params['size_N'],
                                              beta=self.beta,
                                              random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -509,8 +508,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not size_M:  # Default setting
             if self.beta > 0:
                 size_M = 2 / self.beta * shape + size_N - 1
@@ -528,27 +525,28 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'], size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=self.params['shape'],
-                                                    scale=self.params['scale'],
+            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=params['shape'],
+                                                    scale=params['scale'],
                                                     beta=self.beta,
-                                                    size=self.params['size_N'],
+                                                    size=params['size_N'],
                                                     random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -760,8 +758,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if (size_M1 >= size_N) and (size_M2 >= size_N):
             # all([var >= size_N for var in [size_M1, size_M2]]
             a = 0.5 * self.beta * (size_M1 - size_N + 1)
@@ -776,20 +772,21 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b) if size_M1,2 were used a,b = beta/2 (M_1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.jacobi_sampler_full(M_1=self.params['size_M1'],
-                                           M_2=self.params['size_M2'],
-                                           N=self.params['size_N'],
+            sampl = rm.jacobi_sampler_full(M_1=params['size_M1'],
+                                           M_2=params['size_M2'],
+                                           N=params['size_N'],
                                            beta=self.beta,
                                            random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -855,8 +852,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not (size_M1 and size_M2):  # default setting
 
             if self.beta > 0:
@@ -880,21 +875,22 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b)
             # If size_M1,2 is used a, b = beta/2 (M1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.mu_ref_beta_sampler_tridiag(a=self.params['a'],
-                                                   b=self.params['b'],
+            sampl = rm.mu_ref_beta_sampler_tridiag(a=params['a'],
+                                                   b=params['b'],
                                                    beta=self.beta,
-                                                   size=self.params['size_N'],
+                                                   size=params['size_N'],
                                                    random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1039,20 +1035,20 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'size_N': size_N, 'haar_mode': haar_mode}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
             sampl = np.exp(2 * 1j * np.pi * rng.rand(params['size_N']))
         else:
             sampl = rm.circular_sampler_full(
-                        N=self.params['size_N'],
+                        N=params['size_N'],
                         beta=self.beta,
-                        haar_mode=self.params['haar_mode'],
+                        haar_mode=params['haar_mode'],
                         random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1077,9 +1073,7 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
@@ -1087,9 +1081,11 @@ class CircularEnsemble(BetaEnsemble):
         else:
             sampl = rm.mu_ref_unif_unit_circle_sampler_quindiag(
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1222,10 +1218,11 @@ class GinibreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.params.update({'size_N': size_N})
-        sampl = rm.ginibre_sampler_full(N=self.params['size_N'],
+        params = {'size_N': size_N}
+        sampl = rm.ginibre_sampler_full(N=params['size_N'],
                                         random_state=rng)
 
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
-- 
2.43.0


From ed266ae1b09a6594ed2cb8cfa1a1324f5e556a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 45/67] fix: k-DPP modes of a projection likelihood kernel
 depended on earlier calls

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 101ce94..eb86480 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -636,7 +636,7 @@ class FiniteDPP:
                                                     random_state=rng)
 
             else:  # self.kernel_type == 'likelihood':
-                if self.L_eig_vals is not None:
+                if 'L_eig_dec' in self.params_keys:
                     # L_eig_vals > 0.5 below to get indices where e_vals = 1
                     sampl = proj_dpp_sampler_eig(
                             eig_vecs=self.eig_vecs[:, self.L_eig_vals > 0.5],
-- 
2.43.0


From 72702309f0295b2deb990629e0c3065b3cf164fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 46/67] fix: negative sizes were accepted by
 uniform_permutation and DescentProcess

---
 dppy/exotic_dpps_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 44d76f0..3e01577 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -150,6 +150,9 @@ def uniform_permutation(N, random_state=None):
     """
     rng = check_random_state(random_state)
 
+    if N < 0:
+        raise ValueError('N={} < 0'.format(N))
+
     sigma = np.arange(N)
     for i in range(N - 1, 0, -1):  # reversed(range(1, N))
         j = rng.randint(0, i + 1)
-- 
2.43.0


From 9e798135704e7c2785bed047a001e71cbd6dcd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 47/67] fix: a refused sampling call of a descent process
 changed the size used to plot the last sample

---
 dppy/exotic_dpps.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index a58feee..8d496c1 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -162,12 +162,12 @@ class CarriesProcess(Descent):
         """
         rng = check_random_state(random_state)
 
-        self.size = size
-        A = rng.randint(0, self.base, self.size)
+        A = rng.randint(0, self.base, size)
         B = np.mod(np.cumsum(A), self.base)
 
         carries = 1 + np.where(B[:-1] > B[1:])[0]
 
+        self.size = size
         self.list_of_samples.append(carries.tolist())
 
 
@@ -206,11 +206,11 @@ class DescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
-        self.size = size
-        sigma = uniform_permutation(self.size, random_state=rng)
+        sigma = uniform_permutation(size, random_state=rng)
 
         descent = 1 + np.where(sigma[:-1] > sigma[1:])[0]
 
+        self.size = size
         self.list_of_samples.append(descent.tolist())
 
 
@@ -262,18 +262,18 @@ class VirtualDescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
-        self.size = size
         # Record the fixed points of the virtual permutation, with density x_0
-        Y = rng.rand(self.size + 1) < self.x_0
+        Y = rng.rand(size + 1) < self.x_0
 
-        sigma = uniform_permutation(self.size + 1, random_state=rng)
+        sigma = uniform_permutation(size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        descent = [i for i in range(self.size)
+        descent = [i for i in range(size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
 
+        self.size = size
         self.list_of_samples.append(descent)
 
 
-- 
2.43.0


From 92e3ed63de44c7621c240f9df531ca2785bb914c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 48/67] fix: a kernel with invalid eigenvalues was refused once
 and accepted by the next call

---
 dppy/finite_dpps.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index eb86480..30a0f1e 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -440,14 +440,14 @@ class FiniteDPP:
                                             random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, self.eig_vecs = la.eigh(self.K)
+            self.K_eig_vals = is_in_01(eig_vals)
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, self.eig_vecs = la.eigh(self.L)
+            self.L_eig_vals = is_geq_0(eig_vals)
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -684,14 +684,14 @@ class FiniteDPP:
                                            random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, self.eig_vecs = la.eigh(self.L)
+            self.L_eig_vals = is_geq_0(eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, self.eig_vecs = la.eigh(self.K)
+            self.K_eig_vals = is_in_01(eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -888,8 +888,8 @@ class FiniteDPP:
             elif self.L is not None:
                 msg = '- eigendecomposition of L'
                 print(msg)
-                self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-                self.L_eig_vals = is_geq_0(self.L_eig_vals)
+                eig_vals, self.eig_vecs = la.eigh(self.L)
+                self.L_eig_vals = is_geq_0(eig_vals)
                 self.compute_K(msg=True)
 
             else:
@@ -957,8 +957,8 @@ class FiniteDPP:
             elif self.K is not None:
                 msg = '- eigendecomposition of K'
                 print(msg)
-                self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-                self.K_eig_vals = is_in_01(self.K_eig_vals)
+                eig_vals, self.eig_vecs = la.eigh(self.K)
+                self.K_eig_vals = is_in_01(eig_vals)
                 self.compute_L(msg=True)
 
             else:
-- 
2.43.0


From 433242dfaf838009bf8686215871eb37d0d1fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 49/67] fix: conditionals of the b coefficients which are not
 log-concave were sampled from a wrong law

---
 ...beta_ensemble_polynomial_potential_core.py | 42 ++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index 0aef94a..1e365a4 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -1,6 +1,6 @@
 import numpy as np
 
-from scipy.optimize import newton, brentq
+from scipy.optimize import newton, brentq, minimize_scalar
 from scipy.special import logsumexp, airy
 
 from dppy.utils import check_random_state
@@ -128,23 +128,37 @@ def find_a_b_convex_gen_gamma(shape, P, mode):
     return np.array([b, a])  # b < 0 < a
 
 
-def gen_gamma_alpha_leq_1_sampler(shape, P, random_state=None):
-    """ Sample from :math:`\\pi(x)\\propto x^{\\alpha-1} \\exp^{-P(x)}`, with :math:`x>0, \\alpha\\leq 1` and :math:`P` convex, by rejection.
+def gen_gamma_rejection_sampler(shape, P, random_state=None):
+    """ Sample from :math:`\\pi(x)\\propto x^{\\alpha-1} \\exp^{-P(x)}`, with :math:`x>0, \\alpha>0`, by rejection.
 
-    Since :math:`P` lies above its tangent at any point :math:`m>0`, :math:`\\pi` is dominated by a Gamma distribution.
-    The optimal tangent point satisfies :math:`m P'(m) = \\alpha`.
+    For any slope :math:`\\gamma>0`, :math:`P(x) \\geq \\gamma x + c_{\\gamma}` with :math:`c_{\\gamma} = \\min_{x\\geq 0} P(x) - \\gamma x`, so that :math:`\\pi` is dominated by a Gamma distribution.
+    The mass of the dominating function, :math:`\\propto \\gamma^{-\\alpha} \\exp^{-c_{\\gamma}}`, is minimized w.r.t. :math:`\\gamma`.
     """
     rng = check_random_state(random_state)
 
-    roots = (np.poly1d([1, 0]) * P.deriv(m=1) - shape).roots
-    m = np.max(roots[np.isreal(roots)].real)
+    d1_P = P.deriv(m=1)
+
+    def c(slope):
+        roots = (d1_P - slope).roots
+        x = np.append(np.maximum(roots[np.isreal(roots)].real, 0.0), 0.0)
+        return np.min(P(x) - slope * x)
+
+    # at the optimum, slope = alpha / m where alpha = m P'(m), or P is not convex and slope is in between such values
+    roots = (np.poly1d([1, 0]) * d1_P - shape).roots
+    real_roots = roots[np.isreal(roots)].real
+    bounds = np.log(shape / real_roots[real_roots > 0])
+    slope = np.exp(minimize_scalar(
+                        lambda log_s: - shape * log_s - c(np.exp(log_s)),
+                        bounds=(np.min(bounds) - 1, np.max(bounds) + 1),
+                        method='bounded').x)
+    c_slope = c(slope)
 
     it = 0
     while True:
         it += 1
-        X = rng.gamma(shape=shape, scale=m / shape)
+        X = rng.gamma(shape=shape, scale=1 / slope)
         U = rng.rand()
-        if np.log(U) <= P(m) + shape / m * (X - m) - P(X):
+        if np.log(U) <= c_slope + slope * X - P(X):
             return X, it
 
 
@@ -186,14 +200,12 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
 
     else:  # x^(shape-1) exp(-(beta x^2 + gamma x))
 
-        if not P[2]:  # x^(shape-1) exp(- gamma x))
+        if P.order == 1:  # x^(shape-1) exp(- gamma x))
             return rng.gamma(shape, 1 / P[1]), 0
 
-        else:
-            if shape <= 1.0:
-                # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode a priori
-                return gen_gamma_alpha_leq_1_sampler(shape, P,
-                                                     random_state=rng)
+        elif shape <= 1.0 or P[2] < 0:
+            # no mode a priori, or P is not convex
+            return gen_gamma_rejection_sampler(shape, P, random_state=rng)
 
         # else there exists a mode, use [Dev12] domination
         mode = find_mode_convex_gen_gamma(shape, P)
-- 
2.43.0


From 388b72229a790cc5ea754f3c17ea56fd2f972510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 50/67] fix: sample_mcmc of BetaEnsemblePolynomialPotential
 crashed when beta is a numpy scalar

---
 dppy/beta_ensemble_polynomial_potential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 0a17453..56d4abd 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -167,7 +167,7 @@ class BetaEnsemblePolynomialPotential(object):
             for i in range(1, N + 1):
 
                 # a_i | ... propto exp - P_a_i
-                P_a_i = 0.5 * self.beta * N * P_a_cond(i, a, b, self.V)
+                P_a_i = P_a_cond(i, a, b, self.V) * (0.5 * self.beta * N)
                 if sample_exact_cond:
                     a[i], _ = sampler_exact_convex_quartic(
                                 P=P_a_i,
@@ -181,7 +181,7 @@ class BetaEnsemblePolynomialPotential(object):
 
                 # b_i | ... propto x^(shape-1) * exp - P_b_i
                 if i < N:
-                    P_b_i = 0.5 * self.beta * N * P_b_cond(i, a, b, self.V)
+                    P_b_i = P_b_cond(i, a, b, self.V) * (0.5 * self.beta * N)
                     b[i], _ = sampler_exact_convex_quartic(
                                 P=P_b_i,
                                 shape=0.5 * self.beta * (N - i),
-- 
2.43.0


From 5f6c99398bd2f9bfb881f0fe4610058f48b11c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:32 +0000
Subject: [PATCH 51/67] fix: chain of largest eigenvalues of
 BetaEnsemblePolynomialPotential crashed for N=1

---
 dppy/beta_ensemble_polynomial_potential.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 56d4abd..b79d22c 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -191,11 +191,9 @@ class BetaEnsemblePolynomialPotential(object):
                 eig_vals[:, p] = la.eigvalsh_tridiagonal(a[1:N + 1],
                                                          np.sqrt(b[1:N]))
             elif return_chain_of_lambda_max:
-                lambda_max[p] = la.eigvalsh_tridiagonal(
+                lambda_max[p] = np.max(la.eigvalsh_tridiagonal(
                                     a[1:N + 1],
-                                    np.sqrt(b[1:N]),
-                                    select='i',
-                                    select_range=(N - 1, N - 1))[0]
+                                    np.sqrt(b[1:N])))
 
         if return_chain_of_eig_vals:
             return eig_vals
-- 
2.43.0


From 7923efeff20ccaa782abd473bffd815ac806317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:57 +0000
Subject: [PATCH 52/67] fix: eval_w of MultivariateJacobiOPE crashed on
 array_like points which are not arrays

---
 dppy/multivariate_jacobi_ope.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 8495a39..4fe195d 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -139,6 +139,7 @@ class MultivariateJacobiOPE:
         :rtype:
             array_like
         """
+        X = np.asarray(X)
         a, b = self.jacobi_params.T
 
         return np.prod((1.0 - X)**a * (1.0 + X)**b, axis=-1)
-- 
2.43.0


From a651f4f6aa3245dfbca3a30bcc932ac4eb688790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 53/67] fix: limit_shape crashed on array_like points which are
 not arrays

---
 dppy/exotic_dpps_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 3e01577..704eb30 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -277,6 +277,7 @@ def limit_shape(x):
         - :cite:`Ker96`
     """
 
+    x = np.asarray(x)
     w_x = np.zeros_like(x, dtype=float)
 
     abs_x_gt2 = np.abs(x) >= 2.0
-- 
2.43.0


From 080955043f7ca2cfd3f31168ccfa307a340a8292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 54/67] fix: UST crashed or left the graph when the nodes are
 not labelled 0, ..., n-1

---
 dppy/exotic_dpps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 8d496c1..bdfbb28 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -486,8 +486,10 @@ class UST:
         self.edge_labels = {edge: r'$e_{}$'.format(i)
                             for i, edge in enumerate(self.edges)}
 
-        self.neighbors = [list(graph.neighbors(v))
-                          for v in range(self.nb_nodes)]
+        # The Markov-chain-based samplers work on the positions of the nodes
+        index = {v: i for i, v in enumerate(self.nodes)}
+        self.neighbors = [[index[w] for w in graph.neighbors(v)]
+                          for v in self.nodes]
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
@@ -565,6 +567,8 @@ class UST:
                 sampl = ust_sampler_aldous_broder(self.neighbors,
                                                   random_state=rng)
 
+            sampl = self.nx.relabel_nodes(sampl, dict(enumerate(self.nodes)))
+
         elif self.sampling_mode in self._sampling_modes['spectral-method']:
 
             self.compute_kernel_eig_vecs()
-- 
2.43.0


From 5ab73464f85c2d9ce188bc42b784d804940e6412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:54 +0000
Subject: [PATCH 55/67] fix: zonotope sampler never returned when the initial
 point lies on the border of a tile

---
 dppy/mcmc_sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 8510b9f..26cdf21 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -570,6 +570,11 @@ def zonotope_sampler(A_zono, **params):
         # Get the tile
         B_x0 = extract_basis(np.asarray(y_star))
 
+        if len(B_x0) != r:  # x0 lies on the border of a tile
+            if 'x_0' in params:
+                raise ValueError('x_0 must lie in the interior of a tile')
+            x0 = matrix(A_zono.dot(rng.rand(N)))
+
     # Initialize sequence of sample
     chain = np.zeros((nb_iter, r), dtype=int)
     chain[0] = B_x0
-- 
2.43.0


From 4a65a80699c108ec1b493da7819285413d73960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 56/67] fix: displaying the empty partition of the Poissonized
 Plancherel process crashed

---
 dppy/exotic_dpps.py      | 5 +++--
 dppy/exotic_dpps_core.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index bdfbb28..7a9f1de 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -362,7 +362,7 @@ class PoissonizedPlancherel:
         ax.spines['right'].set_visible(False)
 
         # Ticks options
-        x_max = np.max(np.abs(sampl)) + 0.5
+        x_max = np.max(np.abs(sampl), initial=0.0) + 0.5
         minor_ticks = np.arange(-x_max, x_max + 1)
         major_ticks = np.arange(-100, 100 + 1, 10)
         ax.set_xticks(major_ticks)
@@ -404,7 +404,8 @@ class PoissonizedPlancherel:
         y_diag = self.list_of_young_diag[-1]
         sampl = self.list_of_samples[-1].copy()
 
-        x_max = 1.1 * max(y_diag.size, y_diag[0])
+        # The empty partition is drawn with probability exp(-theta)
+        x_max = 1.1 * max(y_diag.size, np.max(y_diag, initial=1))
         xy_young = xy_young_ru(y_diag)
 
         if normalization:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 704eb30..c54c322 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -230,13 +230,15 @@ def xy_young_ru(young_diag):
         inter[0::2], inter[1::2] = arr_1, arr_2
         return inter
 
+    young_diag = np.asarray(young_diag, dtype=int)
+
     # horizontal lines
     x_hor = intertwine(np.zeros_like(young_diag), young_diag)
     y_hor = np.repeat(np.arange(1, young_diag.size + 1), repeats=2)
 
     # vertical lines
     uniq, ind = np.unique(young_diag[::-1], return_index=True)
-    gaps = np.ediff1d(uniq, to_begin=young_diag[-1])
+    gaps = np.ediff1d(uniq, to_begin=young_diag[-1:])
 
     x_vert = np.repeat(np.arange(1, 1 + gaps.sum()), repeats=2)
     y_vert = np.repeat(young_diag.size - ind, repeats=gaps)
-- 
2.43.0


From 85ead2e0ff057d3e83e5111818bbaf867ee1f592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:18 +0000
Subject: [PATCH 57/67] fix: Ginibre histogram dropped the points outside the
 unit disk

---
 dppy/beta_ensembles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 59c6535..78359ed 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -1279,8 +1279,10 @@ class GinibreEnsemble(BetaEnsemble):
             if normalization:
                 ax.plot([0, 1, 1], [0, 2, 0], color='r')
 
-            bins = np.linspace(0, 1, 20)
-            ax.hist(np.abs(points), bins=bins, density=1,
+            radii = np.abs(points)
+            # Some points lie outside the unit disk, all when not normalized
+            bins = np.linspace(0, np.max(radii, initial=1.0), 20)
+            ax.hist(radii, bins=bins, density=1,
                     facecolor='blue', alpha=0.5,
                     label='hist')
         else:
-- 
2.43.0


From da51355b9e1b7056cd0eb66a9ea01813c9614d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:46 +0000
Subject: [PATCH 58/67] fix: kernels of large scale were refused because of
 rounding errors on their null eigenvalues

---
 dppy/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dppy/utils.py b/dppy/utils.py
index e69e288..5944806 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -204,6 +204,10 @@ def is_geq_0(array, tol=1e-8):
         return None
     elif np.all(array >= -tol):
         return array
+    # eigenvalues are computed with an error relative to the largest one
+    elif (np.all(np.isfinite(array))
+          and np.all(array >= -np.size(array) * np.finfo(float).eps * np.max(array))):
+        return np.maximum(array, 0.0)
     else:
         raise ValueError('array with entries not all >= 0')
 
-- 
2.43.0


From 40d53352c56ded7739f461f37702d90000b31dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:46 +0000
Subject: [PATCH 59/67] fix: k-DPP sampling failed when elementary symmetric
 polynomials overflow or underflow

---
 dppy/exact_sampling.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 44539a2..21b4555 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1301,13 +1301,36 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
     if E_poly is None:
         E_poly = elementary_symmetric_polynomials(eig_vals, k)
 
+    # e_k is homogeneous of degree k in eig_vals, it may leave the range of floats
+    # while the selection probabilities can still be computed from the ratios
+    # R[k, n] = e_k(eig_vals[:n]) / e_k-1(eig_vals[:n])
+    in_range = np.triu((E_poly[:k + 1] >= np.finfo(float).tiny)
+                       & (E_poly[:k + 1] < np.inf))
+    R = None
+    if np.count_nonzero(in_range) < np.count_nonzero(np.triu(np.ones_like(in_range))):
+        R = np.zeros((k + 1, eig_vals.size + 1))
+        R[0, :] = np.inf
+        with np.errstate(divide='ignore', invalid='ignore'):
+            for n, e_val in enumerate(eig_vals, start=1):
+                R[1:, n] = R[1:, n - 1]
+                if e_val > 0:
+                    R[1:, n] += e_val
+                    R[1:, n] /= 1 + e_val / R[:-1, n - 1]
+
     ind_selected = np.zeros(k, dtype=int)
     for n in range(eig_vals.size, 0, -1):
 
         if k == 0:
             break
 
-        if rng.rand() < eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]:
+        if R is None:
+            proba = eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]
+        elif eig_vals[n - 1] > 0:
+            proba = eig_vals[n - 1] / (R[k, n - 1] + eig_vals[n - 1])
+        else:
+            proba = 0.0
+
+        if rng.rand() < proba:
             k -= 1
             ind_selected[k] = n - 1
 
-- 
2.43.0


From 89d863426013a08706bbc615757c759da47ce28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:37 +0000
Subject: [PATCH 60/67] fix: MCMC chains were stuck in their initial state when
 determinants overflow or underflow

---
 dppy/mcmc_sampling.py | 51 ++++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 26cdf21..63030df 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -133,6 +133,21 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
     return S0.tolist()
 
 
+def log_det_S(kernel, S):
+    """ Compute :math:`\\log \\det \\mathbf{K}_S`, which does not leave the range of floats as the determinant itself may do for large :math:`S` or kernels of large/small scale.
+    It is :math:`-\\infty` when the determinant is null, or negative because of rounding errors.
+    """
+    sign, log_det = np.linalg.slogdet(kernel[np.ix_(S, S)])
+
+    return log_det if sign > 0 else -np.inf
+
+
+def det_ratio(log_det_S1, log_det_S0):
+    """ Ratio of determinants to appear in acceptance probabilities, capped to avoid overflows."""
+
+    return np.exp(np.minimum(log_det_S1 - log_det_S0, 500.0))
+
+
 def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
                                 random_state=None):
     """ MCMC sampler for generic DPPs, it is a mix of add/delete and basis exchange MCMC samplers.
@@ -177,7 +192,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
     N = kernel.shape[0]
     ground_set = np.arange(N)
 
-    S0, det_S0 = s_init, det_ST(kernel, s_init)
+    S0, log_det_S0 = s_init, log_det_S(kernel, s_init)
     size_S0 = len(S0)  # Size of the current sample
     chain = [S0]  # Initialize the collection (list) of sample
 
@@ -199,9 +214,9 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         if U < 0.5 * (1 - ratio)**2:
             S1.append(t)  # S1 = S0 + t
             # Accept_reject the move
-            det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * (size_S0 + 1) / (N - size_S0):
-                S0, det_S0 = S1, det_S1
+            log_det_S1 = log_det_S(kernel, S1)  # log det K_S1
+            if rng.rand() < det_ratio(log_det_S1, log_det_S0) * (size_S0 + 1) / (N - size_S0):
+                S0, log_det_S0 = S1, log_det_S1
                 chain.append(S1)
                 size_S0 += 1
             else:
@@ -212,9 +227,9 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S1 = S0 - s
             S1.append(t)  # S1 = S1 + t = S0 - s + t
             # Accept_reject the move
-            det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < (det_S1 / det_S0):
-                S0, det_S0 = S1, det_S1
+            log_det_S1 = log_det_S(kernel, S1)  # log det K_S1
+            if rng.rand() < det_ratio(log_det_S1, log_det_S0):
+                S0, log_det_S0 = S1, log_det_S1
                 chain.append(S1)
                 # size_S0 stays the same
             else:
@@ -224,9 +239,9 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         elif (0.5 * (1 - ratio) <= U) & (U < 0.5 * (ratio**2 + (1 - ratio))):
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
-            det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
-                S0, det_S0 = S1, det_S1
+            log_det_S1 = log_det_S(kernel, S1)  # log det K_S1
+            if rng.rand() < det_ratio(log_det_S1, log_det_S0) * (N - (size_S0 - 1)) / size_S0:
+                S0, log_det_S0 = S1, log_det_S1
                 chain.append(S1)
                 size_S0 -= 1
             else:
@@ -287,7 +302,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
     N = kernel.shape[0]  # Number of elements
 
     # Initialization
-    S0, det_S0 = s_init, det_ST(kernel, s_init)
+    S0, log_det_S0 = s_init, log_det_S(kernel, s_init)
     chain = [S0]  # Initialize the collection (list) of sample
 
     # Evaluate running time...
@@ -307,9 +322,9 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
                 S1.append(s)  # S1 = SO + s
 
             # Accept_reject the move
-            det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0:
-                S0, det_S0 = S1, det_S1
+            log_det_S1 = log_det_S(kernel, S1)  # log det K_S1
+            if rng.rand() < det_ratio(log_det_S1, log_det_S0):
+                S0, log_det_S0 = S1, log_det_S1
                 chain.append(S1)
 
             else:
@@ -373,7 +388,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
     size = len(s_init)  # Size of the sample (cardinality is fixed)
     # Initialization
-    S0, det_S0 = s_init, det_ST(kernel, s_init)
+    S0, log_det_S0 = s_init, log_det_S(kernel, s_init)
 
     chain = np.zeros((nb_iter, size), dtype=int)
     chain[0] = S0
@@ -395,11 +410,11 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             t = rng.choice(np.delete(ground_set, S0))
             S1[s_ind] = t  # S_1 = S0 - S0[s_ind] + t
 
-            det_S1 = det_ST(kernel, S1)  # det K_S1
+            log_det_S1 = log_det_S(kernel, S1)  # log det K_S1
 
             # Accept_reject the move w. proba
-            if rng.rand() < det_S1 / det_S0:
-                S0, det_S0 = S1, det_S1
+            if rng.rand() < det_ratio(log_det_S1, log_det_S0):
+                S0, log_det_S0 = S1, log_det_S1
                 chain[it] = S1
 
             else:  # if reject, stay in the same state
-- 
2.43.0


From 2f1ffaba14a8c7e09dfa54e68329166cb5a74026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:52 +0000
Subject: [PATCH 61/67] fix: MCMC initialisation refused valid kernels because
 of an absolute tolerance on determinants

---
 dppy/mcmc_sampling.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 63030df..638d6bd 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -15,7 +15,7 @@ import time
 import numpy as np
 import scipy.linalg as la
 
-from dppy.utils import det_ST, check_random_state
+from dppy.utils import check_random_state
 
 
 ############################################
@@ -65,6 +65,15 @@ def dpp_sampler_mcmc(kernel, mode='AED', **params):
     return sampl
 
 
+def is_invertible_S(kernel, S):
+    """ Check :math:`\\det \\mathbf{K}_S > 0` up to rounding errors, whatever the scale of the kernel."""
+
+    tol = 4 * len(kernel) * np.finfo(float).eps * np.max(kernel.diagonal())
+
+    return (len(S) == 0
+            or np.linalg.matrix_rank(kernel[np.ix_(S, S)], tol) == len(S))
+
+
 def initialize_AED_sampler(kernel, random_state=None):
     """
     .. seealso::
@@ -78,20 +87,16 @@ def initialize_AED_sampler(kernel, random_state=None):
     N = kernel.shape[0]
     ground_set = np.arange(N)
 
-    S0, det_S0 = [], 0.0
     nb_trials = 100
-    tol = 1e-9
 
     for _ in range(nb_trials):
-        if det_S0 > tol:
+        T = rng.choice(2 * N, size=N, replace=False)
+        S0 = np.intersect1d(T, ground_set, assume_unique=True)
+        if is_invertible_S(kernel, S0):
             break
-        else:
-            T = rng.choice(2 * N, size=N, replace=False)
-            S0 = np.intersect1d(T, ground_set, assume_unique=True)
-            det_S0 = det_ST(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
-                   'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
+                   'After {} random trials, no initial set S0 satisfies det L_S0 > 0.'.format(nb_trials),
                    'You may consider passing your own initial state **{"s_init": S0}.']
         raise ValueError('\n'.join(err_str))
 
@@ -111,21 +116,17 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
 
     N = kernel.shape[0]
 
-    S0, det_S0 = [], 0.0
     nb_trials = 100
-    tol = 1e-9
 
     for _ in range(nb_trials):
-        if det_S0 > tol:
+        S0 = rng.choice(N,
+                        size=rng.randint(1, N + 1) if size is None else size,
+                        replace=False)
+        if is_invertible_S(kernel, S0):
             break
-        else:
-            S0 = rng.choice(N,
-                            size=rng.randint(1, N + 1) if size is None else size,
-                            replace=False)
-            det_S0 = det_ST(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
-                   'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
+                   'After {} random trials, no initial set S0 satisfies det L_S0 > 0.'.format(nb_trials),
                    'If you are sampling from a k-DPP, make sure k <= rank(L).' if size else '',
                    'You may consider passing your own initial state **{"s_init": S0}.']
         raise ValueError('\n'.join(err_str))
-- 
2.43.0


From 67204515bbd8b7814eb17767312e71969d3bee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:58 +0000
Subject: [PATCH 62/67] fix: k-DPP of size larger than the rank failed without
 explanation, or returned an empty sample, on projection eigendecompositions

---
 dppy/exact_sampling.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 21b4555..4eab8ff 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -425,7 +425,11 @@ def proj_dpp_sampler_eig(eig_vecs, mode='GS', size=None,
                     'Given "{}"'.format(mode)]
         raise ValueError('\n'.join(str_list))
 
-    if eig_vecs.shape[1]:
+    rank = eig_vecs.shape[1]
+    if size is not None and size > rank:
+        raise ValueError('size k={} > rank={}'.format(size, rank))
+
+    if rank:
         # Phase 2: Sample from projection kernel VV.T
         # Chain rule, conditionals are updated using:
         if mode == 'GS':  # Gram-Schmidt
-- 
2.43.0


From 5160329ccdb38f14f85249218e012de525fc57d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:08 +0000
Subject: [PATCH 63/67] fix: exact samplers crashed on kernels and eigenvectors
 of integer type, and on single precision projection kernels

---
 dppy/exact_sampling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 4eab8ff..3ef244e 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -109,8 +109,8 @@ def proj_dpp_sampler_kernel_Chol(K, size=None, random_state=None):
         size = rank
     # else: k-DPP with k = size
 
-    A = K.copy()
-    d = np.diagonal(A).astype(float)
+    A = K.astype(np.result_type(K, np.float32))  # copy, at least float
+    d = np.diagonal(A).real.copy()
 
     orig_indices = np.arange(N)
 
@@ -202,7 +202,7 @@ def proj_dpp_sampler_kernel_GS(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     c = np.zeros((N, size))
-    norm_2 = K.diagonal().copy()  # residual norm^2
+    norm_2 = K.diagonal().astype(np.result_type(K, np.float32))  # residual norm^2
 
     for it in range(size):
         j = rng.choice(ground_set[avail],
@@ -266,7 +266,7 @@ def proj_dpp_sampler_kernel_Schur(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     # Schur complement list i.e. residual norm^2
-    schur_comp = K.diagonal().copy()
+    schur_comp = K.diagonal().astype(np.result_type(K, np.float32))
     K_inv = np.zeros((size, size))
 
     for it in range(size):
@@ -342,7 +342,7 @@ def dpp_sampler_generic_kernel(K, random_state=None):
 
     rng = check_random_state(random_state)
 
-    A = K.copy()
+    A = K.astype(np.result_type(K, np.float32))  # copy, at least float
     sample = []
 
     for j in range(len(A)):
@@ -472,7 +472,7 @@ def proj_dpp_sampler_eig_GS(eig_vecs, size=None,
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs
+    V = eig_vecs.astype(np.result_type(eig_vecs, np.float32), copy=False)
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
@@ -534,7 +534,7 @@ def proj_dpp_sampler_eig_GS_bis(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(np.result_type(eig_vecs, np.float32))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
@@ -633,7 +633,7 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(np.result_type(eig_vecs, np.float32))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
-- 
2.43.0


From 15e05fdf6cff0a16f2d86faa4c922c058933e398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:13 +0000
Subject: [PATCH 64/67] fix: vfx sampler targeted a rescaled likelihood kernel
 because its Poisson intensity was rounded up

---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index e62b706..891c7b9 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -368,8 +368,7 @@ def vfx_sampling_do_sampling_loop(X_data,
     with get_progress_bar(disable=not verbose) as prog_bar:
         for rej_iter in range(max_iter):
             # sample t
-            lam = np.ceil(pc_state.q * np.exp(pc_state.s / pc_state.q))
-            t = rng.poisson(lam=lam.astype('int'))
+            t = rng.poisson(lam=pc_state.q * np.exp(pc_state.s / pc_state.q))
 
             # sample sigma subset
             sigma = rng.choice(n,
-- 
2.43.0


From 42864eba49768bbb556f416e18925b012771e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:40 +0000
Subject: [PATCH 65/67] fix: alpha sampler crashed on integer data and
 overwrote the arrays returned by eval_L

---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 891c7b9..e6981a3 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -109,8 +109,7 @@ def estimate_rls_from_weighted_dict_eigendecomp(X_to_estimate,
         raise ValueError('Input eigendecomposition has wrong shape: {} {} {}'.format(m, eigvec.shape, eigvals.shape))
 
     diag_L_to_estimate = evaluate_L_diagonal(eval_L, X_to_estimate)
-    L_DX = eval_L(dict_alphadpp.X, X_to_estimate)
-    L_DX *= W_sqrt
+    L_DX = eval_L(dict_alphadpp.X, X_to_estimate) * W_sqrt
     E = eigvec.T.dot(L_DX)
     E *= np.sqrt(1.0 / (alpha_hat * eigvals + 1.0)).reshape(-1, 1)
 
-- 
2.43.0


From 48683e533534a66e7b7235bb06ba9e18bf385358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:49 +0000
Subject: [PATCH 66/67] fix: numpy integers were refused as number of points of
 MultivariateJacobiOPE and as beta of CircularEnsemble

---
 dppy/beta_ensembles.py          | 2 +-
 dppy/multivariate_jacobi_ope.py | 3 ++-
 dppy/random_matrices.py         | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 78359ed..10432e7 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -1005,7 +1005,7 @@ class CircularEnsemble(BetaEnsemble):
 
     def __init__(self, beta=2):
 
-        if not isinstance(beta, int):
+        if not isinstance(beta, (int, np.integer)):
             raise ValueError('`beta` must be int >0. Given: {}'.format(beta))
         super().__init__(beta=beta)
 
diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 4fe195d..1e83f56 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -111,8 +111,9 @@ class MultivariateJacobiOPE:
             - when :math:`d=1` we must have :math:`a_1, b_1 > -1`
             - when :math:`d \\geq 2` we must have :math:`|a_i|, |b_i| \\leq \\frac{1}{2}`.
         """
-        if type(N) is not int or N < 1:
+        if not isinstance(N, (int, np.integer)) or N < 1:
             raise ValueError('Number of points N={} < 1'.format(N))
+        N = int(N)
 
         jacobi_params = np.asarray(jacobi_params)
         dim = jacobi_params.size // 2
diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 13cbb12..7922144 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -345,7 +345,7 @@ def mu_ref_unif_unit_circle_sampler_quindiag(beta=2, size=10,
 
     rng = check_random_state(random_state)
 
-    if not (isinstance(beta, int) and (beta > 0)):
+    if not (isinstance(beta, (int, np.integer)) and (beta > 0)):
         raise ValueError('`beta` must be positive integer.\
                          Given: {}'.format(beta))
 
-- 
2.43.0


From 061e24ef7b76e281ad1443214e98ebc15581f581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:48 +0000
Subject: [PATCH 67/67] fix: eigenvectors derived from an ill conditioned
 L_gram_factor (d<N) were not orthonormal

Sampling raised 'probabilities do not sum to 1' as soon as the condition
number of L_gram_factor exceeded 1e4, because normalised eigenvectors of
L = Phi^T Phi were deduced from those of L' = Phi Phi^T. Use the singular
value decomposition of Phi.
---
 dppy/finite_dpps.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 30a0f1e..8507da9 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -822,20 +822,21 @@ class FiniteDPP:
         return self.sample_mcmc(self.sampling_mode, **params)
 
     def _eigendecompose_L_from_L_dual(self):
-        """ Derive the (thin) eigendecomposition of :math:`L = \\Phi^{\\top} \\Phi` from that of :math:`L' = \\Phi \\Phi^{\\top}`.
-        Null eigenvalues are discarded since the corresponding eigenvectors of :math:`L` cannot be obtained from those of :math:`L'`.
+        """ Derive the (thin) eigendecomposition of :math:`L = \\Phi^{\\top} \\Phi` from the singular value decomposition of :math:`\\Phi`.
+        The eigenvectors obtained from those of :math:`L' = \\Phi \\Phi^{\\top}` would not be orthonormal when :math:`\\Phi` is not well conditioned.
+        Null eigenvalues are discarded, in increasing order as :func:`la.eigh`.
         """
-        eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-        eig_vals = is_geq_0(eig_vals)
+        _, sing_vals, eig_vecs_T = la.svd(self.L_gram_factor,
+                                          full_matrices=False)
+        sing_vals, eig_vecs = sing_vals[::-1], eig_vecs_T[::-1].T
 
         # as in np.linalg.matrix_rank
         d, N = self.L_gram_factor.shape
-        tol = np.max(np.abs(eig_vals)) * max(d, N) * np.finfo(float).eps
-        non_null = eig_vals > tol
+        tol = sing_vals.max() * max(d, N) * np.finfo(sing_vals.dtype).eps
+        non_null = sing_vals > tol
 
-        self.L_eig_vals = eig_vals[non_null]
-        self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs[:, non_null]
-                                                / np.sqrt(self.L_eig_vals))
+        self.L_eig_vals = sing_vals[non_null]**2
+        self.eig_vecs = eig_vecs[:, non_null]
 
     def _compute_L_eig_vals_from_K_eig_vals(self):
         """ eig_L = eig_K/(1-eig_K), raise ``FloatingPointError`` when some eig_K equals 1 up to rounding errors, since L does not exist in that case
-- 
2.43.0

