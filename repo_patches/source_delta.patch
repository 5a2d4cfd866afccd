From 024e47a54acee72b4febb595fe5ab86cea250b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 01/41] fix: count the root sample evaluations in simple tree
 pyramid sampling

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 573cc9b..5f1c96f 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -444,6 +444,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             self.T.samples[self.T.root.node_idx] = self.T.root.coords
             self._num_q_samples += 1
             self.T.root.weigh(target_d, self.T.root.sampler)
+            self._num_pi_evals += 1  # Count the evaluation operation
+            self._num_q_evals += 1  # Count the evaluation operation
             self.T.weights[self.T.root.node_idx] = self.T.root.weight
             self._update_model()
 
-- 
2.43.0


From 31dd8bb8de89fc75c31dea3a6c9d361dbc30224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 02/41] fix: np.int no longer exists in numpy, mixture tree
 pyramid sampling crashed

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 5f1c96f..d756d9d 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -392,7 +392,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # that will be expanded. Each node split generates 2^k samples. Therefore to obtain N samples we
             # have to split X nodes. N = X*2^k, X = N / 2^k
             n_samples_to_get = n_samples - self._get_nsamples()
-            nodes_to_expand = np.int(np.ceil(n_samples_to_get / 2 ** self.ndims))
+            nodes_to_expand = int(np.ceil(n_samples_to_get / 2 ** self.ndims))
 
             # Obtain N samples
             samples = self.sample(nodes_to_expand)
-- 
2.43.0


From c6c2aaf301c934c0dd654494c53a758838a94523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 03/41] fix: accept the documented ess_target=None in tree
 pyramid sampling

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index d756d9d..62a6ad2 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -689,7 +689,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
         return len(self._get_samples()[1])
 
     def _get_samples(self):
-        if self.ess_target > 1.0:
+        if self.ess_target is None or self.ess_target > 1.0:
             return self.T.samples[self.T.leaves_idx], self.T.weights[self.T.leaves_idx]
 
         nsamples = 0
-- 
2.43.0


From 16e0f60165b4af783edff460da590bed7d14796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 04/41] fix: leaf sample histories overwrote each other when
 collecting tree pyramid samples

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 62a6ad2..41dffb5 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -698,10 +698,12 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
         samples = np.zeros((nsamples, self.ndims))
         weights = np.zeros(nsamples)
-        for i, l in enumerate(self.T.leaves):
+        i = 0
+        for l in self.T.leaves:
             nsamples_subspace = len(l.weight_hist)
             samples[i:i + nsamples_subspace] = l.coords_hist
             weights[i:i + nsamples_subspace] = l.weight_hist.flatten()
+            i += nsamples_subspace
         return samples[weights > 0], weights[weights > 0]
 
     def _self_normalize(self):
-- 
2.43.0


From 1bef3c469dc9be2e7fcf85deb91539d8d7b4f49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 05/41] fix: reshape single points before evaluating the tree
 pyramid density

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 41dffb5..38bc70e 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -536,7 +536,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
     def log_prob(self, x):
         if len(x.shape) == 1:
-            x.reshape(-1, self.ndims)
+            x = x.reshape(-1, self.ndims)
             llikelihood = np.zeros((len(x)))
         elif len(x.shape) == 2:
             llikelihood = np.zeros((len(x)))
@@ -571,7 +571,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
 
     def prob(self, x):
         if len(x.shape) == 1:
-            x.reshape(-1, self.ndims)
+            x = x.reshape(-1, self.ndims)
             likelihood = np.zeros((len(x)))
         elif len(x.shape) == 2:
             likelihood = np.zeros((len(x)))
-- 
2.43.0


From ed35618bbdf81151f669da82a9ca51c88e62abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 06/41] fix: count the points rejection sampling actually draws
 and evaluates

---
 ais_benchmarks/sampling_methods/rejection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/rejection.py b/ais_benchmarks/sampling_methods/rejection.py
index d4f4aef..e6c58cd 100644
--- a/ais_benchmarks/sampling_methods/rejection.py
+++ b/ais_benchmarks/sampling_methods/rejection.py
@@ -20,13 +20,13 @@ class CRejectionSampling(CMixtureSamplingMethod):
         while t_elapsed < timeout and n_samples > len(self.samples):
             # Generate proposal samples from proposal distribution
             proposals = self.proposal_dist.sample(n_samples - len(self.samples))
-            self._num_q_samples += n_samples
+            self._num_q_samples += len(proposals)
 
             # Obtain the sample likelihood for both the proposal and target distributions
             proposals_prob_q = self.proposal_dist.prob(proposals) * self.scaling
-            self._num_pi_evals += n_samples
+            self._num_pi_evals += len(proposals)
             proposals_prob_p = target_d.prob(proposals)
-            self._num_q_evals += n_samples
+            self._num_q_evals += len(proposals)
 
             # Compute the acceptance ratio
             acceptance_ratio = proposals_prob_p / proposals_prob_q
-- 
2.43.0


From 10232c0892c6d31f757a77cb1081ef73159dadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 07/41] fix: tree pyramid statistics computed the NESS of an
 empty sample set

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 38bc70e..6c2c425 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -330,7 +330,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 "proposal_evals": self._num_q_evals,
                 "target_evals": self._num_pi_evals,
                 "n_samples": self._get_nsamples(),
-                "NESS": self.get_approx_NESS()}
+                "NESS": self.get_NESS()}
 
     def reset(self):
         super(CTreePyramidSampling, self).reset()
-- 
2.43.0


From 5a5baebd64f251d3ce91674cd08f4bbe6c6b300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 08/41] fix: start the Metropolis-Hastings chain inside the
 search space

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 8c2db6a..1e6a0af 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -49,7 +49,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         self.n_burnin = params["n_burnin"]
         self.target_d = None
         self.bw = np.array([params["kde_bw"]])
-        self.current_sample = self.proposal_d.sample()
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []  # 0:reject 1:accept 2:burn_in 3:decorrelation 4:sample
-- 
2.43.0


From 0ce85616dc934cb207a39b86a8e2bbc875d079e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 09/41] fix: the Metropolis-Hastings chain position survived
 reset

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 1e6a0af..a0a563e 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -76,6 +76,8 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
     def reset(self):
         super(self.__class__, self).reset()
+        self.target_d = None
+        self.current_sample = np.clip(self.proposal_d.sample(), self.space_min, self.space_max)
         self.is_init = False
         self.trajectory_samples = []
         self.trajectory_types = []
-- 
2.43.0


From d1700b56a8ec4f49faafc33de94cc64dbdecb85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 10/41] fix: Metropolis-Hastings sample(n) returned n*n samples

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index a0a563e..1641ff1 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -70,7 +70,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(n_samples, self.n_steps, timeout)
+            sample = self.mcmc(1, self.n_steps, timeout)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
-- 
2.43.0


From 9c24c7e3962f8f34349283e5edecd84a796467e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 11/41] fix: a Metropolis-Hastings step that timed out returned
 a rejected proposal

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 1641ff1..218b241 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -117,8 +117,9 @@ class CMetropolisHastings(CMixtureSamplingMethod):
 
             self.trajectory_types.append(self.REJECT)
 
-        x_old = x_new
-        self.trajectory_types[-1] = self.ACCEPT
+        if accepted:
+            x_old = x_new
+            self.trajectory_types[-1] = self.ACCEPT
         return x_old
 
     def mcmc(self, n_samples, n_steps, timeout=60):
-- 
2.43.0


From 71fe2865b3379b1c9c2ee429f5f229f8f4954686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 12/41] fix: Metropolis-Hastings sampling could exceed its time
 budget several times over

---
 ais_benchmarks/sampling_methods/metropolis_hastings.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/metropolis_hastings.py b/ais_benchmarks/sampling_methods/metropolis_hastings.py
index 218b241..99c1c93 100644
--- a/ais_benchmarks/sampling_methods/metropolis_hastings.py
+++ b/ais_benchmarks/sampling_methods/metropolis_hastings.py
@@ -61,16 +61,19 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         :param timeout:
         :return: generated samples
         """
+        t_ini = time.time()
         # Run the burn in period if necessary
         if not self.is_init:
             for _ in range(self.n_burnin):
-                self.current_sample = self.mcmc_step(self.current_sample)
+                t_elapsed = time.time() - t_ini
+                self.current_sample = self.mcmc_step(self.current_sample, timeout=timeout-t_elapsed)
                 self.trajectory_types[-1] = self.BURN_IN
             self.is_init = True
 
         res = t_tensor([])
         for _ in range(n_samples):
-            sample = self.mcmc(1, self.n_steps, timeout)
+            t_elapsed = time.time() - t_ini
+            sample = self.mcmc(1, self.n_steps, timeout - t_elapsed)
             res = np.concatenate((res, sample)) if res.size else sample
         return res
 
@@ -140,7 +143,7 @@ class CMetropolisHastings(CMixtureSamplingMethod):
         t_ini = time.time()
 
         while n_samples > len(self.samples) and elapsed_time < timeout:
-            new_samples = self.sample(1, timeout)
+            new_samples = self.sample(1, timeout - elapsed_time)
             self.samples = np.concatenate((self.samples, new_samples)) if self.samples.size else new_samples
             elapsed_time = time.time() - t_ini
 
-- 
2.43.0


From 5988d0a600633ca6ddde034c86b116873af60c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 13/41] fix: HiDaisee sampling ignored its time budget

---
 ais_benchmarks/sampling_methods/hi_daisee.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/hi_daisee.py b/ais_benchmarks/sampling_methods/hi_daisee.py
index 32c17a8..bd745b1 100644
--- a/ais_benchmarks/sampling_methods/hi_daisee.py
+++ b/ais_benchmarks/sampling_methods/hi_daisee.py
@@ -201,7 +201,11 @@ class CHiDaiseeSampling(CMixtureISSamplingMethod):
         if self.debug:
             print(self.__class__.__name__, "== Debug ==> ", "importance_sample(n_samples=%d)" % n_samples)
 
+        t_ini = time.time()
         for t in range(len(self.samples), n_samples):
+            if time.time() - t_ini >= timeout:
+                break
+
             # Initialize traversal path and node to the root. Line 3.
             P = [0]
             n_id = 0
-- 
2.43.0


From 1cdb874cdfc1c6b8268af3af4c7fa802251d5faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 14/41] fix: nested sampling retries left the search space

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 16eb834..dc07d84 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -114,7 +114,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         if self.debug:
             print("DEBUG: Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
-            new_sample = ellipsoid.sample()
+            new_sample = np.clip(ellipsoid.sample(), self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 33160db..853e15a 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -38,7 +38,7 @@ class CNestedSampling(CMixtureSamplingMethod):
         # print("Ellipsoid volume: %f. Converged: " % ellipsoid.volume, not ellipsoid.volume > ellipsoid_converged_radius**self.ndims)
         # while value > new_value and elapsed_time < timeout and ellipsoid.volume > ellipsoid_converged_radius**self.ndims:
         while value > new_value and elapsed_time < timeout:
-            new_sample = self.proposal_dist.sample() + sample
+            new_sample = np.clip(self.proposal_dist.sample() + sample, self.space_min, self.space_max)
             self._num_q_samples += 1
             new_value = pdf.prob(new_sample)
             self._num_pi_evals += 1
-- 
2.43.0


From 91089ba5cc07b70c5762510f700f732b60bb03a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 15/41] fix: the fitted ellipsoids survived the reset of multi
 nested sampling

---
 ais_benchmarks/sampling_methods/multi_nested.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index dc07d84..f954cbf 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -96,6 +96,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
         self.live_points = np.random.uniform(0, 1, size=(self.N, len(self.space_max))) * self.range + self.space_min
         self.L = np.array([])
         self.Z = 0
+        self.ellipsoids = []
         super(CMultiNestedSampling, self).reset()
 
     def get_NESS(self):
-- 
2.43.0


From f3cd983acf045e65ed0911aa42e8ef7f6432446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 16/41] fix: nested samplers granted their time budget to every
 single replacement

---
 ais_benchmarks/sampling_methods/multi_nested.py | 10 +++++++++-
 ais_benchmarks/sampling_methods/nested.py       |  8 +++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index f954cbf..b02ca2f 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -190,6 +190,8 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                                          inflate_factor)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        elapsed_time = 0
+        t_ini = time.time()
         points = self.live_points
         values = target_d.prob(points)
         self._num_pi_evals += len(points)
@@ -215,7 +217,13 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
 
                 # Replace the point with lowest likelihood with a new sample from the proposal distribution
-                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout, self.converged_radius)
+                points[min_idx], values[min_idx] = self.resample(Lmin, target_d, c_ellipsoid, timeout - elapsed_time, self.converged_radius)
+
+                elapsed_time = time.time() - t_ini
+                if elapsed_time >= timeout:
+                    break
+            if elapsed_time >= timeout:
+                break
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 853e15a..5bbf4fe 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -50,6 +50,8 @@ class CNestedSampling(CMixtureSamplingMethod):
         return ESS / len(self.samples)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        elapsed_time = 0
+        t_ini = time.time()
         values = target_d.prob(self.live_points)
         self._num_pi_evals += len(self.live_points)
 
@@ -64,7 +66,11 @@ class CNestedSampling(CMixtureSamplingMethod):
 
             # Replace the point with lowest likelihood with a new sample from the proposal distribution
             # centered on a sample randomly select4ed from the live points
-            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout)
+            self.live_points[min_idx], values[min_idx] = self.resample(self.live_points[np.random.randint(0, len(self.live_points))], Lmin, target_d, timeout - elapsed_time)
+
+            elapsed_time = time.time() - t_ini
+            if elapsed_time >= timeout:
+                break
 
         # Update Z (evidence)
         X = np.array([np.exp(-i / self.N) for i in range(len(self.samples))])
-- 
2.43.0


From 2df72e12df43f21639b547defee315d5299b3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 17/41] fix: multi nested sampling kept drawing when enough
 samples were stored

---
 ais_benchmarks/sampling_methods/multi_nested.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index b02ca2f..7b49ade 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -190,6 +190,9 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                                          inflate_factor)
 
     def importance_sample(self, target_d, n_samples, timeout=60):
+        if n_samples <= len(self.samples):
+            return self.samples, self.weights
+
         elapsed_time = 0
         t_ini = time.time()
         points = self.live_points
-- 
2.43.0


From 75c483ad77a01b84f694508e534c34d0ca2e9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 18/41] fix: build mixture models from a parameter dictionary

---
 ais_benchmarks/distributions/nonparametric/CKernelDensity.py | 3 ++-
 ais_benchmarks/sampling_methods/base.py                      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
index a4da415..e98cc33 100644
--- a/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
+++ b/ais_benchmarks/distributions/nonparametric/CKernelDensity.py
@@ -33,7 +33,8 @@ class CKernelDensity(CDistribution):
         models = []
         for x in self.samples:
             models.append(CKernel(x, self.kernel_bw, self.kernel_f))
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights,
+                                    "dims": self.dims, "support": self.support_vals})
 
     def log_prob(self, data):
         return self.model.log_prob(data)
diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 64efff2..22de0e1 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -243,7 +243,8 @@ class CMixtureISSamplingMethod(CMixtureSamplingMethod):
                                              "dims": self.ndims,
                                              "support": np.array([np.array([x]) - cov * 6, np.array([x]) + cov * 6])})
             models.append(model)
-        self.model = CMixtureModel(models, self.weights)
+        self.model = CMixtureModel({"models": models, "weights": self.weights,
+                                    "dims": self.ndims, "support": [self.space_min, self.space_max]})
 
 
 def make_grid(space_min, space_max, resolution):
-- 
2.43.0


From 51ec74019b83011cbe6b46f99868ca853e760f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 19/41] fix: normal distributions have no mean attribute,
 drawing 2D proposals crashed

---
 ais_benchmarks/sampling_methods/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/base.py b/ais_benchmarks/sampling_methods/base.py
index 22de0e1..ea881b0 100644
--- a/ais_benchmarks/sampling_methods/base.py
+++ b/ais_benchmarks/sampling_methods/base.py
@@ -208,9 +208,9 @@ class CMixtureSamplingMethod(CSamplingMethod):
         res = []
         if hasattr(self, "proposals"):
             for q in self.proposals:
-                res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o"))
+                res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o"))
                 res.extend(plot_pdf2d(ax, q, self.space_min, self.space_max, alpha=0.3, resolution=0.02, colormap=cm.viridis, linestyles='dashed', scale=1/len(self.proposals)))
-            res.append(ax.scatter(q.mean[0], q.mean[1], c="g", marker="o", label="$q_n(x)$"))
+            res.append(ax.scatter(q.loc[0], q.loc[1], c="g", marker="o", label="$q_n(x)$"))
 
         # for s, w in zip(self.samples, self.weights):
         #     res.append(ax.scatter(s[0], s[1], w, c="g", marker="o", alpha=0.2))
-- 
2.43.0


From 61469e29c53585afd8c8e0c816b0e6cf11ff33df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 20/41] fix: kernels must return one density per evaluated
 point

---
 ais_benchmarks/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/distributions.py b/ais_benchmarks/distributions/distributions.py
index b84c69a..aed8436 100644
--- a/ais_benchmarks/distributions/distributions.py
+++ b/ais_benchmarks/distributions/distributions.py
@@ -318,7 +318,7 @@ class CKernel:
         return np.log(self.prob(x))
 
     def prob(self, x):
-        return self(x)
+        return np.prod(self(x), axis=-1)
 
     def __call__(self, x):
         return self.kernel((x - self.loc) * self.bw) * self.bw
-- 
2.43.0


From 1319d3ccd69a0896533d6a6b133d04f2220ab393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 21/41] fix: undefined name in the delta distribution integral

---
 ais_benchmarks/distributions/parametric/CMultivariateDelta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
index b880714..80d9485 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateDelta.py
@@ -46,7 +46,7 @@ class CMultivariateDelta(CDistribution):
 
     def integral(self, a, b, nsamples=None):
         assert np.all(a < b)
-        if np.all(a < center) and np.all(center < b):
+        if np.all(a < self.loc) and np.all(self.loc < b):
             return np.array([1])
         return np.array([0])
 
-- 
2.43.0


From 3c5291391dad2afdad840ae53b85964f918a4a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 22/41] fix: undefined name in the nearest neighbor constructor

---
 ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
index dea9a3d..841c1a1 100644
--- a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
+++ b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
@@ -18,7 +18,7 @@ class CNearestNeighbor(CDistribution):
 
         self.samples = params["samples"]
         self.weights = params["weights"]
-        self.kdtree = spatial.KDTree(samples)
+        self.kdtree = spatial.KDTree(self.samples)
 
     def log_prob(self, samples):
         dist, idx = self.kdtree.query(samples)
-- 
2.43.0


From a97c95876afaccec7aaa5b72951d39b25624fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 23/41] fix: nearest neighbor sampling used multinomial counts
 as indices

---
 ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
index 841c1a1..90f0930 100644
--- a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
+++ b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
@@ -25,7 +25,7 @@ class CNearestNeighbor(CDistribution):
         return self.weights[idx]
 
     def sample(self, nsamples=1):
-        idxs = np.random.multinomial(nsamples, self.weights)
+        idxs = np.random.choice(len(self.weights), size=nsamples, p=self.weights)
         return self.samples[idxs]
 
     def prob(self, data):
-- 
2.43.0


From bc38ed0c7447a680e5d204d90e6930b37cec2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 24/41] fix: exponential log density was wrong for any mean
 other than one

---
 .../distributions/parametric/CMultivariateExponential.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index be2b148..ae2e4dd 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -23,7 +23,7 @@ class CMultivariateExponential(CDistribution):
     def set_moments(self, mean):
         self.loc = mean
         self.scale = 1 / mean
-        self.log_scale = np.log(self.scale * np.e)
+        self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
         return np.random.exponential(self.loc, n_samples)
@@ -33,7 +33,7 @@ class CMultivariateExponential(CDistribution):
 
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
-        res_in = -self.scale.reshape(1, self.dims) * samples[inliers] * self.log_scale.reshape(1, self.dims)
+        res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
         res[inliers] = res_in.flatten()
         return res
-- 
2.43.0


From bc734b4b054ebc115f254106bb0234347f584bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 25/41] fix: exponential log density outside the support must
 be minus infinity

---
 .../distributions/parametric/CMultivariateExponential.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index ae2e4dd..299b31c 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -31,7 +31,7 @@ class CMultivariateExponential(CDistribution):
     def log_prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         res_in = self.log_scale.reshape(1, self.dims) - self.scale.reshape(1, self.dims) * samples[inliers]
         res_in = np.sum(res_in, axis=1)
-- 
2.43.0


From 9f12634a62e2c8c7c1047fa9453c5b4c759d9091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 26/41] fix: exponential density of a single point crashed

---
 .../distributions/parametric/CMultivariateExponential.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index 299b31c..c670ba9 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -39,6 +39,8 @@ class CMultivariateExponential(CDistribution):
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
+
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From b4f45d229cb7805f152747b84875674e59a39480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 27/41] fix: exponential samples must have one column per
 dimension

---
 .../distributions/parametric/CMultivariateExponential.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index c670ba9..74db449 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -26,7 +26,7 @@ class CMultivariateExponential(CDistribution):
         self.log_scale = np.log(self.scale)
 
     def sample(self, n_samples=1):
-        return np.random.exponential(self.loc, n_samples)
+        return np.random.exponential(self.loc, size=(n_samples, self.dims))
 
     def log_prob(self, samples):
         samples = self._check_shape(samples)
-- 
2.43.0


From a2fa9adafdb86d605c0c316a4aa256e83398aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 28/41] fix: Maxwell density outside the support and of single
 points

---
 ais_benchmarks/distributions/benchden/d03_maxwell.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d03_maxwell.py b/ais_benchmarks/distributions/benchden/d03_maxwell.py
index 99607bb..fca0cbc 100644
--- a/ais_benchmarks/distributions/benchden/d03_maxwell.py
+++ b/ais_benchmarks/distributions/benchden/d03_maxwell.py
@@ -34,7 +34,7 @@ class BenchDenMaxwell(CDistribution):
         else:
             raise ValueError("Shape of samples does not match self.dims")
 
-        res = np.zeros(len(samples))
+        res = np.full(len(samples), -np.inf)
         inliers = np.all(samples > 0, axis=1).flatten()
         samples_in = samples[inliers]
         res_in = np.log(samples_in) - ((samples_in * samples_in) / 2)
@@ -43,6 +43,8 @@ class BenchDenMaxwell(CDistribution):
         return res
 
     def prob(self, samples):
+        samples = self._check_shape(samples)
+
         res = np.zeros(len(samples))
         inliers = np.all(samples > 0, axis=1).flatten()
         res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-- 
2.43.0


From b39040cb65e6c271f481d2d88f935889cdfdfb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 29/41] fix: Laplace densities must be one value per evaluated
 point

---
 ais_benchmarks/distributions/benchden/d04_laplace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d04_laplace.py b/ais_benchmarks/distributions/benchden/d04_laplace.py
index 30d62af..36ec20a 100644
--- a/ais_benchmarks/distributions/benchden/d04_laplace.py
+++ b/ais_benchmarks/distributions/benchden/d04_laplace.py
@@ -36,7 +36,7 @@ class BenchDenLaplace(CDistribution):
 
         res = np.log(.5) - np.fabs(samples)
         res = np.sum(res, axis=1)
-        return res
+        return res.flatten()
 
     def prob(self, samples):
         return np.exp(self.log_prob(samples))
-- 
2.43.0


From 3c6be1ae91ae26b67e29e985ffed43e8c946d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 30/41] fix: the benchden uniform covers [0, 1]

---
 ais_benchmarks/distributions/benchden/d01_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/benchden/d01_uniform.py b/ais_benchmarks/distributions/benchden/d01_uniform.py
index b1a9ceb..0fbc83d 100644
--- a/ais_benchmarks/distributions/benchden/d01_uniform.py
+++ b/ais_benchmarks/distributions/benchden/d01_uniform.py
@@ -20,5 +20,5 @@ class BenchDenUniform(CMultivariateUniform):
         params["dims"] = 1
         params["support"] = np.array([0, 1])
         params["center"] = np.array([.5])
-        params["radius"] = np.array([1])
+        params["radius"] = np.array([.5])
         super(self.__class__, self).__init__(params)
-- 
2.43.0


From 8d3112222ad98734b522408db906a52bc62a6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 31/41] fix: uniform integral over a box outside the support
 was not zero

---
 ais_benchmarks/distributions/parametric/CMultivariateUniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
index d69d9d9..af91f22 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateUniform.py
@@ -65,7 +65,7 @@ class CMultivariateUniform(CDistribution):
         assert np.all(a < b)
         ini = np.maximum(a, self.support_vals[0])
         end = np.minimum(b, self.support_vals[1])
-        return (1 / self.volume) * np.prod((end-ini))
+        return (1 / self.volume) * np.prod(np.maximum(end - ini, 0))
 
     def marginal(self, dim):
         raise NotImplementedError
-- 
2.43.0


From f44b787073de6f59e94ca45814a73785f61791f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 32/41] fix: mixtures with all weights unusable kept zero
 weights

---
 ais_benchmarks/distributions/mixture/CMixtureModel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/mixture/CMixtureModel.py b/ais_benchmarks/distributions/mixture/CMixtureModel.py
index 06538f8..7226bb6 100644
--- a/ais_benchmarks/distributions/mixture/CMixtureModel.py
+++ b/ais_benchmarks/distributions/mixture/CMixtureModel.py
@@ -36,6 +36,7 @@ class CMixtureModel(CDistribution):
         if weights.sum() <= 0:
             print("CMixtureModel. WARNING! All weights are set to zero!. "
                   "Using equal weights for all components.", file=sys.stderr)
+            weights = np.full(len(weights), 1 / len(weights))
         else:
             weights = weights / weights.sum()
         self.weights = weights
-- 
2.43.0


From c295616d8698409990e8a775d0bbbcfab13fab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 33/41] fix: memory metric kept its value across resets

---
 ais_benchmarks/metrics/performance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/metrics/performance.py b/ais_benchmarks/metrics/performance.py
index c975334..88c7d6e 100644
--- a/ais_benchmarks/metrics/performance.py
+++ b/ais_benchmarks/metrics/performance.py
@@ -79,5 +79,6 @@ class CMemoryUsage(CMetric):
         self.mem_ini = 0
         self.mem_end = 0
         self.mem_cum = 0
+        self.value = 0
         gc.collect()
 
-- 
2.43.0


From 817667af8869aafdb5833656d1a2d197656ab3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 34/41] fix: divergence and statistics metrics kept their value
 across resets

---
 ais_benchmarks/metrics/divergences.py | 2 +-
 ais_benchmarks/metrics/statistics.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/metrics/divergences.py b/ais_benchmarks/metrics/divergences.py
index 0b85148..3cc072f 100644
--- a/ais_benchmarks/metrics/divergences.py
+++ b/ais_benchmarks/metrics/divergences.py
@@ -72,7 +72,7 @@ class CDivergence(CMetric):
         pass
 
     def reset(self, **kwargs):
-        pass
+        self.value = 0
 
     def compute(self, **kwargs):
         assert "p" in kwargs.keys() and hasattr(kwargs["p"], "log_prob"), \
diff --git a/ais_benchmarks/metrics/statistics.py b/ais_benchmarks/metrics/statistics.py
index bbfe1e9..721e119 100644
--- a/ais_benchmarks/metrics/statistics.py
+++ b/ais_benchmarks/metrics/statistics.py
@@ -20,7 +20,7 @@ class CExpectedValueMSE(CMetric):
         pass
 
     def reset(self, **kwargs):
-        pass
+        self.value = 0
 
     def compute(self, **kwargs):
         assert "p" in kwargs.keys() and hasattr(kwargs["p"], "log_prob"), \
-- 
2.43.0


From e4da456618b5a11bd4f01b35ddadd740e833f14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 35/41] fix: searching a node in a split tree pyramid restarted
 at the root forever

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index 6c2c425..e1bf004 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -147,10 +147,10 @@ class CTreePyramid:
         :param prev: node that represents the subspace to search
         :return: node that contains val
         """
-        if prev is None and self.root is None:
-            return None
-        else:
+        if prev is None:
             prev = self.root
+            if prev is None:
+                return None
 
         if prev.is_leaf():
             return prev
-- 
2.43.0


From 7357511ac220211311a302684dc128531cfb7fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 36/41] fix: exponential density of points all outside the
 support crashed

---
 .../distributions/parametric/CMultivariateExponential.py     | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
index 74db449..1ab3a79 100644
--- a/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
+++ b/ais_benchmarks/distributions/parametric/CMultivariateExponential.py
@@ -41,10 +41,7 @@ class CMultivariateExponential(CDistribution):
     def prob(self, samples):
         samples = self._check_shape(samples)
 
-        res = np.zeros(len(samples))
-        inliers = np.all(samples > 0, axis=1).flatten()
-        res[inliers] = np.exp(self.log_prob(samples[inliers]).flatten())
-        return res
+        return np.exp(self.log_prob(samples))
 
     def condition(self, dist):
         raise NotImplementedError
-- 
2.43.0


From 110eb4528570d886c384f9d68fe8ee5b56524c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 37/41] fix: the first nested sample was overwritten by the
 point replacing it

---
 ais_benchmarks/sampling_methods/multi_nested.py | 2 +-
 ais_benchmarks/sampling_methods/nested.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/multi_nested.py b/ais_benchmarks/sampling_methods/multi_nested.py
index 7b49ade..67d1d20 100644
--- a/ais_benchmarks/sampling_methods/multi_nested.py
+++ b/ais_benchmarks/sampling_methods/multi_nested.py
@@ -214,7 +214,7 @@ class CMultiNestedSampling(CMixtureSamplingMethod):
                 assert len(g_indices) > 0
 
                 min_idx = g_indices[np.argmin(values[c_ellipsoid.indices])]
-                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1)
+                self.samples = np.vstack((self.samples, points[min_idx])) if self.samples.size else points[min_idx].reshape(1,-1).copy()
 
                 # Keep the likelihood value associated with the sample
                 self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
diff --git a/ais_benchmarks/sampling_methods/nested.py b/ais_benchmarks/sampling_methods/nested.py
index 5bbf4fe..9c7eca2 100644
--- a/ais_benchmarks/sampling_methods/nested.py
+++ b/ais_benchmarks/sampling_methods/nested.py
@@ -59,7 +59,7 @@ class CNestedSampling(CMixtureSamplingMethod):
             # Add the point with lowest likelihood to the resulting sample set
             Lmin = np.min(values)
             min_idx = np.argmin(values)
-            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1)
+            self.samples = np.vstack((self.samples, self.live_points[min_idx])) if self.samples.size else self.live_points[min_idx].reshape(1, -1).copy()
 
             # Keep the likelihood value associated with the sample
             self.L = np.concatenate((self.L, np.array([Lmin]))) if self.L.size else np.array([Lmin])
-- 
2.43.0


From c81b65899114290dc4201a460752c338a009d2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 38/41] fix: CNearestNeighbor evaluates a single point as a
 batch of one

---
 ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
index 90f0930..6b70295 100644
--- a/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
+++ b/ais_benchmarks/distributions/nonparametric/CNearestNeighbor.py
@@ -21,6 +21,7 @@ class CNearestNeighbor(CDistribution):
         self.kdtree = spatial.KDTree(self.samples)
 
     def log_prob(self, samples):
+        samples = self._check_shape(samples)
         dist, idx = self.kdtree.query(samples)
         return self.weights[idx]
 
-- 
2.43.0


From 7ca744a039239c18c3dc58acc4b6b816906900ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:52 +0000
Subject: [PATCH 39/41] fix: keep a single proposal draw as a batch of one in
 DM-PMC and LAIS

---
 ais_benchmarks/sampling_methods/dm_ais.py      | 2 +-
 ais_benchmarks/sampling_methods/layered_ais.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ais_benchmarks/sampling_methods/dm_ais.py b/ais_benchmarks/sampling_methods/dm_ais.py
index 878f5fb..68cbdb3 100644
--- a/ais_benchmarks/sampling_methods/dm_ais.py
+++ b/ais_benchmarks/sampling_methods/dm_ais.py
@@ -66,7 +66,7 @@ class CDeterministicMixtureAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]
                     self._num_q_samples += 1
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
diff --git a/ais_benchmarks/sampling_methods/layered_ais.py b/ais_benchmarks/sampling_methods/layered_ais.py
index 7f9162b..f1c3a60 100644
--- a/ais_benchmarks/sampling_methods/layered_ais.py
+++ b/ais_benchmarks/sampling_methods/layered_ais.py
@@ -84,7 +84,7 @@ class CLayeredAIS(CMixtureISSamplingMethod):
                 for _ in range(self.K):
                     s = q.sample()[0]           # Samplers generate samples in a batch. Here we are generating just
                     self._num_q_samples += 1    # one sample and discard the batch dimension
-                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s
+                    new_samples = np.vstack((new_samples, s)) if new_samples.size else s.reshape(1, -1)
 
             # Weight samples
             new_weights = t_tensor([])
-- 
2.43.0


From f7eefc4e2be239f5d3ded55a17d6a2e3cbfebf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 40/41] fix: leaf resampling with the normal kernel divides by
 the density of the scaled draw

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index e1bf004..ea72a1d 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -510,7 +510,8 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
             # calling self.prob() (which computes computing q(x)) and do it in a vectorized form as shown below.
             proposal_probs = 1 / ((2 * radii) ** self.T.ndims)
         elif self.kernel == "normal":
-            proposal_probs = self.T.sampler.prob(re_samples)
+            # The samples are scaled by the node diameters, so the unit proposal density is divided by the node volume.
+            proposal_probs = self.T.sampler.prob(re_samples).reshape(-1, 1) / ((2 * radii) ** self.T.ndims)
         self.T.samples[self.T.leaves_idx] = samples
         probs = target_d.prob(samples)
         # re_weights = probs.reshape(-1) / proposal_probs.reshape(-1)
-- 
2.43.0


From ae4e6a8a6aa4673b5f6f89f27a922a8c7b2522cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 41/41] fix: mixture tree pyramid weighs node samples with the
 mixture they were drawn from

---
 ais_benchmarks/sampling_methods/tree_pyramid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ais_benchmarks/sampling_methods/tree_pyramid.py b/ais_benchmarks/sampling_methods/tree_pyramid.py
index ea72a1d..c57144a 100644
--- a/ais_benchmarks/sampling_methods/tree_pyramid.py
+++ b/ais_benchmarks/sampling_methods/tree_pyramid.py
@@ -408,7 +408,7 @@ class CTreePyramidSampling(CMixtureISSamplingMethod):
                 self.T.samples[node.node_idx] = node.coords
                 self._num_q_samples += 1  # Count the sample operation
 
-                node.weigh(target_d, self)
+                node.weigh(target_d, self.model)
                 self._num_pi_evals += 1  # Count the evaluation operation
                 self._num_q_evals += 1  # Count the evaluation operation
                 self.T.weights[node.node_idx] = node.weight
-- 
2.43.0

