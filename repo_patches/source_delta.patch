From 4cbcf253eb11a44aebe272bdd7d69831f2033f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:38 +0000
Subject: [PATCH 01/39] fix: warn when the iteration limit is reached without
 convergence

The loop index never equals max_iterations, so the guard on the warning could
never be true and non-converged fits were silent.
---
 src/reor/archetypal_analysis.py | 8 ++++----
 src/reor/fembv.py               | 8 ++++----
 src/reor/gpnh_convex_coding.py  | 8 ++++----
 src/reor/mtd_convex_coding.py   | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 67f1750..db63cd8 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -667,6 +667,10 @@ class KernelAA():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -726,10 +730,6 @@ class KernelAA():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, kernel, dictionary=None, weights=None, **kwargs):
diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 1d42197..dc1d1ff 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -300,6 +300,10 @@ class FEMBV():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -328,10 +332,6 @@ class FEMBV():
         cost, n_iter = self._iterate(update_parameters=update_parameters,
                                      update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, data, parameters=None, weights=None, **kwargs):
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 84490e5..d0c6edb 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -548,6 +548,10 @@ class GPNHConvexCoding():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -603,10 +607,6 @@ class GPNHConvexCoding():
             update_dictionary=update_dictionary,
             update_weights=update_weights)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, data, dictionary=None, weights=None, **kwargs):
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 78d7d81..0742cd6 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -752,6 +752,10 @@ class MTDConvexCoding():
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached.' %
+                              self.max_iterations, UserWarning)
 
         return new_cost, n_iter
 
@@ -831,10 +835,6 @@ class MTDConvexCoding():
             update_weights=update_weights,
             update_parameters=update_parameters)
 
-        if n_iter == self.max_iterations and self.tolerance > 0:
-            warnings.warn('Maximum number of iterations %d reached.' %
-                          self.max_iterations, UserWarning)
-
         return cost, n_iter
 
     def fit_transform(self, data, dictionary=None, weights=None, **kwargs):
-- 
2.43.0


From fe395aa4f73bd024a15f6c8ca3f76b4f0f1034d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:36 +0000
Subject: [PATCH 02/39] fix: do not pass FurthestSum options to the weights
 initialisers

---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index db63cd8..9c469c4 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -136,7 +136,7 @@ def _initialize_kernel_aa(kernel, n_components, init='furthest_sum',
         kernel, n_components, init=init, random_state=rng, **kwargs)
 
     weights = _initialize_kernel_aa_weights(
-        kernel, n_components, init=init, random_state=rng, **kwargs)
+        kernel, n_components, init=init, random_state=rng)
 
     return dictionary, weights
 
@@ -708,7 +708,7 @@ class KernelAA():
                                    '_kernel_aa (input dictionary)')
             weights = _initialize_kernel_aa_weights(
                 kernel, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index d0c6edb..7627691 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -585,7 +585,7 @@ class GPNHConvexCoding():
                                    '_gpnh_convex_coding (input dictionary)')
             weights = _initialize_gpnh_convex_coding_weights(
                 data, self.n_components, init=self.init,
-                random_state=self.random_state, **kwargs)
+                random_state=self.random_state)
         elif update_dictionary and not update_weights:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 0742cd6..c1d69ee 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -807,7 +807,7 @@ class MTDConvexCoding():
             else:
                 weights = _initialize_mtd_convex_coding_weights(
                     data, self.n_components, init=self.init,
-                    random_state=self.random_state, **kwargs)
+                    random_state=self.random_state)
 
             if not update_parameters:
                 _check_init_order_weights(order_weights, (n_lags,),
@@ -820,7 +820,7 @@ class MTDConvexCoding():
                 order_weights, transition_matrices = \
                     _initialize_mtd_convex_coding_parameters(
                         data, self.n_components, init=self.init, order=n_lags,
-                        random_state=self.random_state, **kwargs)
+                        random_state=self.random_state)
 
         self.X = data.copy()
         self.Gamma = weights.copy()
-- 
2.43.0


From 2fe05eaebecdbd2cd437712c424c5f99c019bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:21 +0000
Subject: [PATCH 03/39] fix: allow transforming data after a fit with custom
 initialisation

---
 src/reor/archetypal_analysis.py | 11 +++++++++++
 src/reor/gpnh_convex_coding.py  |  6 ++++++
 src/reor/mtd_convex_coding.py   |  6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 9c469c4..71bbe34 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -781,6 +781,15 @@ class KernelAA():
         self.fit_transform(kernel, **kwargs)
         return self
 
+    def _initial_transform_weights(self, kernel):
+        """Return initial weights to use when transforming data."""
+
+        if self.init == 'custom':
+            return _initialize_kernel_aa_weights_random(
+                kernel, self.n_components, random_state=self.random_state)
+
+        return None
+
     def transform(self, kernel):
         """Transform the data according to the fitted factorization.
 
@@ -798,6 +807,7 @@ class KernelAA():
         self._kernel_aa(
             kernel=kernel,
             dictionary=self.C,
+            weights=self._initial_transform_weights(kernel),
             update_dictionary=False, update_weights=True)
 
         return self.S
@@ -968,6 +978,7 @@ class ArchetypalAnalysis(KernelAA):
             kernel = self.kernel_func(data)
 
         self._kernel_aa(kernel=kernel, dictionary=self.C,
+                        weights=self._initial_transform_weights(kernel),
                         update_dictionary=False, update_weights=True)
 
         return self.S
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 7627691..e954ac3 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -672,9 +672,15 @@ class GPNHConvexCoding():
             Representation of the data.
         """
 
+        weights = None
+        if self.init == 'custom':
+            weights = _initialize_gpnh_convex_coding_weights_random(
+                data, self.n_components, random_state=self.random_state)
+
         self._gpnh_convex_coding(
             data=data,
             dictionary=self.S,
+            weights=weights,
             update_dictionary=False, update_weights=True)
 
         return self.Gamma
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index c1d69ee..e6926b2 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -900,9 +900,15 @@ class MTDConvexCoding():
             Representation of the data.
         """
 
+        weights = None
+        if self.init == 'custom':
+            weights = _initialize_mtd_convex_coding_weights_random(
+                data, self.n_components, random_state=self.random_state)
+
         self._mtd_convex_coding(
             data=data,
             dictionary=self.S,
+            weights=weights,
             order_weights=self.order_weights,
             transition_matrices=self.transition_matrices,
             update_dictionary=False, update_weights=True,
-- 
2.43.0


From ce927c69aa7763388b1860874ff18efe436f92f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:35 +0000
Subject: [PATCH 04/39] fix: keep both supplied factors when neither is to be
 updated

---
 src/reor/archetypal_analysis.py | 5 +++++
 src/reor/gpnh_convex_coding.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 71bbe34..31af5b5 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -715,6 +715,11 @@ class KernelAA():
             dictionary = _initialize_kernel_aa_dictionary(
                 kernel, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
+        elif not update_dictionary and not update_weights:
+            _check_init_weights(weights, (n_samples, self.n_components),
+                                '_kernel_aa (input weights)')
+            _check_init_dictionary(dictionary, (self.n_components, n_samples),
+                                   '_kernel_aa (input dictionary)')
         else:
             dictionary, weights = _initialize_kernel_aa(
                 kernel, self.n_components, init=self.init,
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index e954ac3..8cceb02 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -592,6 +592,11 @@ class GPNHConvexCoding():
             dictionary = _initialize_gpnh_convex_coding_dictionary(
                 data, self.n_components, init=self.init,
                 random_state=self.random_state, **kwargs)
+        elif not update_dictionary and not update_weights:
+            _check_init_weights(weights, (n_samples, self.n_components),
+                                '_gpnh_convex_coding (input weights)')
+            _check_init_dictionary(dictionary, (self.n_components, n_features),
+                                   '_gpnh_convex_coding (input dictionary)')
         else:
             dictionary, weights = _initialize_gpnh_convex_coding(
                 data, self.n_components, init=self.init,
-- 
2.43.0


From e8f727ff0d3ff9897e912725284e9abe5e8190d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 05/39] fix: avoid NaN dissimilarities between repeated samples
 in FurthestSum initialisation

---
 src/reor/archetypal_analysis.py | 4 ++--
 src/reor/gpnh_convex_coding.py  | 4 ++--
 src/reor/mtd_convex_coding.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 31af5b5..7febb5e 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -71,10 +71,10 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 8cceb02..55c9836 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -62,10 +62,10 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index e6926b2..e2303f8 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -74,10 +74,10 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
         exclude = np.array([], dtype='i8')
 
     kernel_diag = np.diag(kernel)
-    dissimilarities = np.sqrt(
+    dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
         2 * kernel +
-        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)))
+        np.tile(kernel_diag[:, np.newaxis], (1, n_samples)), 0))
 
     selected = furthest_sum(
         dissimilarities, n_components, start_index, exclude, n_extra_steps)
-- 
2.43.0


From e5f64be77622e807e8a627eb898158514943d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:55 +0000
Subject: [PATCH 06/39] fix: honour the initialisation given when constructing
 FEM-BV models

---
 src/reor/fembv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index dc1d1ff..4ca0fea 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -313,6 +313,9 @@ class FEMBV():
 
         n_samples, n_features = data.shape
 
+        if init is None:
+            init = self.init
+
         if self.n_components is None:
             self.n_components = n_features
 
-- 
2.43.0


From 0339476a42ae4bc2345b2de8ff2c9f861b3846e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:36 +0000
Subject: [PATCH 07/39] fix: reject negative start index and accept repeated
 exclusions in furthest_sum

---
 src/reor/furthest_sum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index 4b68d71..dd1ff0f 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -52,13 +52,15 @@ def _furthest_sum_impl(dissimilarity_matrix, n_components, start_index,
     if n_components == 0:
         return []
 
+    n_samples = dissimilarity_matrix.shape[0]
+
     if exclude is None:
         exclude = []
 
-    n_samples = dissimilarity_matrix.shape[0]
+    exclude = {index for index in exclude if 0 <= index < n_samples}
     n_excluded = len(exclude)
 
-    if start_index >= n_samples:
+    if start_index < 0 or start_index >= n_samples:
         raise ValueError('Start index %r is out of bounds (n_samples = %d)' %
                          (start_index, n_samples))
 
-- 
2.43.0


From ecae2b8ab997b24789a28d9c40fd4c6a93322b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 08/39] fix: accept any sequence of positive lags and
 n_components=None in GPNHConvexCodingCROM

---
 src/reor/gpnh_convex_coding_crom.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index f4fde05..63f776c 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -4,6 +4,7 @@ Provides routines for cluster-based model order reduction.
 
 
 from collections import deque
+import numbers
 import time
 import numpy as np
 
@@ -14,6 +15,9 @@ from reor.simplex_projection import (simplex_project_columns,
 from reor.spg import get_next_spg_alpha, get_next_spg_step_length
 
 
+INTEGER_TYPES = (numbers.Integral, np.integer)
+
+
 class GPNHConvexCodingCROM(GPNHConvexCoding):
     """GPNH convex coding based CROM.
 
@@ -77,12 +81,15 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         if lags is None:
             self.lags = np.array([1], dtype='i8')
         else:
-            self.lags = lags
+            for lag in lags:
+                if not isinstance(lag, INTEGER_TYPES) or lag < 1:
+                    raise ValueError('Lag must be a positive integer; '
+                                     'got (lag=%r)' % lag)
+            self.lags = np.array(lags, dtype='i8')
 
         n_lags = self.lags.size
         self.order_weights = np.empty((n_lags,), dtype='f8')
-        self.transition_matrices = np.empty(
-            (n_lags, n_components, n_components), dtype='f8')
+        self.transition_matrices = None
         self.Z = None
 
         self.order_weights_old = None
-- 
2.43.0


From 0835defad481ce88fb96cffa6c7534dfb916f471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 09/39] fix: report missing MTD parameters with a ValueError

---
 src/reor/mtd_convex_coding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index e2303f8..6cd2571 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -38,11 +38,13 @@ def _check_init_dictionary(dictionary, shape, whom):
 
 
 def _check_init_order_weights(order_weights, shape, whom):
+    order_weights = check_array(order_weights, ensure_2d=False)
     _check_array_shape(order_weights, shape, whom)
     _check_unit_axis_sums(order_weights, whom, axis=0)
 
 
 def _check_init_transition_matrices(transition_matrices, shape, whom):
+    transition_matrices = check_array(transition_matrices, allow_nd=True)
     _check_array_shape(transition_matrices, shape, whom)
     _check_unit_axis_sums(transition_matrices, whom, axis=1)
 
-- 
2.43.0


From c399b7eabee064d8c6283f7c90dd298ad712c737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 10/39] fix: support the documented default number of clusters
 in KMeansMarkovCROM

---
 src/reor/crom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 38dac8b..18968c6 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -38,6 +38,9 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
         Fitted Markov transition matrix.
     """
 
+    if n_clusters is None:
+        n_clusters = 2
+
     kmeans = KMeans(n_clusters=n_clusters, **kwargs).fit(
         X, sample_weight=sample_weight)
 
@@ -204,7 +207,7 @@ class KMeansMarkovCROM():
         # Get cluster assignments at the current time-step
         initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
 
-        n_clusters = self.n_clusters
+        n_clusters = self.transition_matrix_.shape[0]
         n_samples = initial_labels.size
 
         labels = np.zeros((n_samples, n_clusters), dtype='f8')
-- 
2.43.0


From 16f1dbb2447a76e0fae3617aa229e3a125c7dd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:14 +0000
Subject: [PATCH 11/39] fix: make KMeansMarkovCROM predict, fit_predict and
 fit_transform work

---
 src/reor/crom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 18968c6..41bb620 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -153,7 +153,7 @@ class KMeansMarkovCROM():
             Array of labels for each sample
         """
 
-        return self.kmeans_.fit_predict(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).labels_
 
     def fit_transform(self, X, sample_weight=None):
         """Perform model reduction and transform data to cluster-distance space.
@@ -173,7 +173,7 @@ class KMeansMarkovCROM():
             Array of distances of each sample to the cluster centroids.
         """
 
-        return self.kmeans_.fit_transform(X, sample_weight=sample_weight)
+        return self.fit(X, sample_weight=sample_weight).transform(X)
 
     def predict(self, X, sample_weight=None, horizon=0):
         """Predict cluster assignment of each sample for the given horizon.
@@ -205,7 +205,7 @@ class KMeansMarkovCROM():
         """
 
         # Get cluster assignments at the current time-step
-        initial_labels = self.kmeans_.predict(X, sample_weight=sample_weight)
+        initial_labels = self.kmeans_.predict(X)
 
         n_clusters = self.transition_matrix_.shape[0]
         n_samples = initial_labels.size
-- 
2.43.0


From 80289c3cf1cceaca8e86663d2e17c77c2b8fd5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:27 +0000
Subject: [PATCH 12/39] fix: avoid NaN transition probabilities for a cluster
 that is never left

---
 src/reor/crom.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reor/crom.py b/src/reor/crom.py
index 41bb620..82a2446 100644
--- a/src/reor/crom.py
+++ b/src/reor/crom.py
@@ -58,7 +58,11 @@ def kmeans_markov_crom(X, n_clusters=None, sample_weight=None, **kwargs):
             Tk = np.array(labels == k, dtype='i8')
             n_jk = (Tj[1:] * Tk[:-1]).sum()
             n_k = Tk[:-1].sum()
-            transition_matrix[j, k] = n_jk / n_k
+            if n_k > 0:
+                transition_matrix[j, k] = n_jk / n_k
+            elif j == k:
+                # no observed departures, treat the cluster as absorbing
+                transition_matrix[j, k] = 1
 
     return kmeans, transition_matrix
 
-- 
2.43.0


From 5948e3904a0ffb58c34e03d54000bfac36707ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:37 +0000
Subject: [PATCH 13/39] fix: use the documented random_state in ClusterPWVARX

---
 src/reor/pwvarx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 91867f3..6f27f9e 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -53,6 +53,7 @@ class ClusterPWVARX():
         self.include_trend = include_trend
         self.clusterer = clusterer
         self.classifier = classifier
+        self.random_state = kwargs.get('random_state', None)
 
         self.mu = None
         self.A = None
@@ -103,7 +104,8 @@ class ClusterPWVARX():
         z = np.hstack([x, y])
 
         if self.clusterer is None:
-            self.clusterer = KMeans(n_clusters=self.n_components)
+            self.clusterer = KMeans(
+                n_clusters=self.n_components, random_state=self.random_state)
 
         self.cluster_labels_ = self.clusterer.fit_predict(z)
 
-- 
2.43.0


From cf40e62e9ec7191b37872bc980bfa75d3a18eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 14/39] fix: accept a single endogenous variable given as a
 matrix in ClusterPWVARX

---
 src/reor/pwvarx.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 6f27f9e..82d587b 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -192,14 +192,9 @@ class ClusterPWVARX():
             Representation of the data.
         """
 
-        if endog.ndim == 1:
-            n_endog = 1
-        else:
-            n_endog = endog.shape[1]
-
         presample_length = max(self.p, self.s)
 
-        if n_endog == 1:
+        if endog.ndim == 1:
             y = np.expand_dims(endog[presample_length:], -1)
         else:
             y = endog[presample_length:]
-- 
2.43.0


From 3def658c62857471b138cd20bf8c86e8fbeec41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:00 +0000
Subject: [PATCH 15/39] fix: discard exogenous coefficients of an earlier fit
 when refitting without them

---
 src/reor/fembv_varx.py | 2 ++
 src/reor/pwvarx.py     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index aa97aba..5db4d19 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -326,6 +326,8 @@ class FEMBVVARX(FEMBV):
         if self.u is not None:
             self.B0 = np.zeros((self.n_components, n_features, n_external),
                                dtype=self.X.dtype)
+        else:
+            self.B0 = None
 
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 82d587b..2f67cf2 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -128,6 +128,7 @@ class ClusterPWVARX():
             self.B = np.zeros((self.n_components, self.s, n_endog, n_exog))
         else:
             n_exog = 0
+            self.B = None
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
         self.residuals = np.zeros_like(y)
-- 
2.43.0


From fba8e3ee45d3c1237c81616fd4b9551ddb3cc410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 16/39] fix: align FEM-BV-VARX components with different
 memories

---
 src/reor/fembv_varx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 5db4d19..0ca08c0 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -285,8 +285,8 @@ class FEMBVVARX(FEMBV):
         self.B0 = None
 
     def _evaluate_distance_matrix(self):
-        presample_length = np.max(self.memory)
         for i in range(self.n_components):
+            presample_length = self.memory[i]
             metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
@@ -332,7 +332,9 @@ class FEMBVVARX(FEMBV):
         self.models = [FEMBVVARXLocalLinearModel(
             self.X[presample_length - self.memory[i]:],
             p=self.memory[i],
-            u=self.u, s=0)
+            u=(self.u[presample_length - self.memory[i]:]
+               if self.u is not None else None),
+            s=0)
             for i in range(self.n_components)]
 
         # Initialize models by performing unweighted fits to
-- 
2.43.0


From 79257c1f9461d3e1d4476475e8ccce3b0f0d4b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:44 +0000
Subject: [PATCH 17/39] fix: reject unknown initialisations and negative
 memories in FEM-BV models

---
 src/reor/fembv.py      | 7 +++++++
 src/reor/fembv_varx.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 4ca0fea..a6c1266 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -20,6 +20,8 @@ from reor._validation import _check_unit_axis_sums, _check_array_shape
 
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
+INITIALIZATION_METHODS = (None, 'random', 'custom')
+
 
 def _check_init_weights(weights, shape, whom):
     weights = check_array(weights)
@@ -316,6 +318,11 @@ class FEMBV():
         if init is None:
             init = self.init
 
+        if init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (init, INITIALIZATION_METHODS))
+
         if self.n_components is None:
             self.n_components = n_features
 
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 0ca08c0..b6e7250 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -270,6 +270,10 @@ class FEMBVVARX(FEMBV):
                 if self.memory.shape != (n_components,):
                     raise ValueError('Memory must be a 1-dimensional array; '
                                      'got shape %r' % list(self.memory.shape))
+                if np.any(self.memory < 0):
+                    raise ValueError(
+                        'Maximum memory must be a non-negative integer;'
+                        ' got (memory=%r)' % (memory,))
             else:
                 raise ValueError(
                     'Memory must be a non-negative integer or tuple; '
-- 
2.43.0


From c54212a6eea8057f61f95ac8f0947fc5777bc608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 18/39] fix: validate custom FEM-BV guesses before changing the
 model

---
 src/reor/fembv.py        |  9 +++++++++
 src/reor/fembv_kmeans.py | 13 +++++++------
 src/reor/fembv_varx.py   |  3 +++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index a6c1266..c63b892 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -79,6 +79,9 @@ class FEMBV():
     def _has_max_tv_norm_constraint(self):
         return self.max_tv_norm is not None and self.max_tv_norm >= 0
 
+    def _get_number_of_weight_samples(self, data):
+        return data.shape[0]
+
     def _get_number_of_weight_parameters(self, n_samples):
 
         n_weight_parameters = self.n_components * n_samples
@@ -195,6 +198,12 @@ class FEMBV():
                     **kwargs):
         """Generate initial guess for parameters and weights."""
 
+        if init == 'custom' and weights is not None:
+            _check_init_weights(weights,
+                                (self._get_number_of_weight_samples(data),
+                                 self.n_components),
+                                '_initialize (input weights)')
+
         self._initialize_components(data, parameters=parameters, init=init,
                                     **kwargs)
 
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 5c2f978..22d1d8d 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -143,18 +143,19 @@ class FEMBVKMeans(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
-
-        n_samples, n_features = self.X.shape
-
-        self.distance_matrix = np.empty(
-            (n_samples, self.n_components), dtype=self.X.dtype)
+        n_samples, n_features = data.shape
 
         if init == 'custom' and parameters is not None:
             _check_init_parameters(
                 parameters, shape=(self.n_components, n_features),
                 whom='_initialize_components (input parameters)')
 
+        self.X = data.copy()
+
+        self.distance_matrix = np.empty(
+            (n_samples, self.n_components), dtype=self.X.dtype)
+
+        if init == 'custom' and parameters is not None:
             self.Theta = parameters.copy()
         else:
             self.Theta = _initialize_fembv_kmeans_random(
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index b6e7250..c5dffaa 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -288,6 +288,9 @@ class FEMBVVARX(FEMBV):
         self.A = None
         self.B0 = None
 
+    def _get_number_of_weight_samples(self, data):
+        return data.shape[0] - np.max(self.memory)
+
     def _evaluate_distance_matrix(self):
         for i in range(self.n_components):
             presample_length = self.memory[i]
-- 
2.43.0


From c7a71a0312fa3398b35609d923dc9ebcba9c53f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:35 +0000
Subject: [PATCH 19/39] fix: transform with the fitted parameters in FEM-BV
 models

---
 src/reor/fembv.py        | 11 +++--
 src/reor/fembv_kmeans.py |  3 ++
 src/reor/fembv_varx.py   | 91 +++++++++++++++++++++++++++++++++-------
 3 files changed, 87 insertions(+), 18 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index c63b892..a7a1e64 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -399,7 +399,11 @@ class FEMBV():
         self.fit_transform(data, **kwargs)
         return self
 
-    def transform(self, data):
+    def _get_parameters(self):
+        """Return the fitted component parameters."""
+        raise NotImplementedError()
+
+    def transform(self, data, **kwargs):
         """Transform data according to the fitted factorization.
 
         Parameters
@@ -413,7 +417,8 @@ class FEMBV():
             Representation of the data.
         """
 
-        self._fembv_fit(data=data, update_parameters=False,
-                        update_weights=True)
+        self._fembv_fit(data=data, parameters=self._get_parameters(),
+                        init='custom', update_parameters=False,
+                        update_weights=True, **kwargs)
 
         return self.Gamma
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 22d1d8d..ddd929c 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -134,6 +134,9 @@ class FEMBVKMeans(FEMBV):
         self.X = None
         self.Theta = None
 
+    def _get_parameters(self):
+        return self.Theta
+
     def _evaluate_distance_matrix(self):
         for j in range(self.n_components):
             self.distance_matrix[:, j] = np.linalg.norm(
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index c5dffaa..7bb0589 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -14,6 +14,23 @@ from reor._validation import _check_array_shape
 INTEGER_TYPES = (numbers.Integral, np.integer)
 
 
+def _check_init_parameters(parameters, n_components, memory, n_features,
+                           n_external, whom):
+    shapes = {'mu': (n_components, n_features)}
+    if memory > 0:
+        shapes['A'] = (n_components, memory, n_features, n_features)
+    if n_external > 0:
+        shapes['B0'] = (n_components, n_features, n_external)
+
+    if set(parameters) != set(shapes):
+        raise ValueError(
+            'Incorrect parameters passed to %s. Expected %s, but got %s' %
+            (whom, sorted(shapes), sorted(parameters)))
+
+    for key in shapes:
+        _check_array_shape(np.asarray(parameters[key]), shapes[key], whom)
+
+
 class FEMBVVARXLocalLinearModel():
     """Local stationary linear VARX model."""
 
@@ -89,6 +106,25 @@ class FEMBVVARXLocalLinearModel():
 
         self.residuals = np.zeros_like(self._y)
 
+    def set_parameters(self, mu, A=None, B0=None):
+        """Set parameters of model without lagged exogeneous factors."""
+
+        self.mu = np.array(mu, dtype='f8')
+        params = [self.mu[np.newaxis]]
+
+        if self.p > 0:
+            self.A = np.array(A, dtype='f8')
+            params += [self.A[i].T for i in range(self.p)]
+
+        if self._u is not None:
+            self.B0 = np.array(B0, dtype='f8')
+            params.append(self.B0.T)
+
+        presample_length = max(self.p, self.s)
+        self.residuals[presample_length:] = (
+            self._y[presample_length:] -
+            np.dot(self._z, np.concatenate(params)))
+
     def fit(self, weights=None):
         n_samples, n_features = self._y.shape
 
@@ -288,13 +324,21 @@ class FEMBVVARX(FEMBV):
         self.A = None
         self.B0 = None
 
+    def _get_parameters(self):
+        parameters = {'mu': self.mu}
+        if np.max(self.memory) > 0:
+            parameters['A'] = self.A
+        if self.B0 is not None:
+            parameters['B0'] = self.B0
+        return parameters
+
     def _get_number_of_weight_samples(self, data):
         return data.shape[0] - np.max(self.memory)
 
     def _evaluate_distance_matrix(self):
         for i in range(self.n_components):
             presample_length = self.memory[i]
-            metric = np.eye(self.models[i].Sigma_u_inv.shape[0])
+            metric = np.eye(self.models[i].residuals.shape[1])
             self.distance_matrix[:, i] = np.einsum(
                 'ij,jk,ik->i',
                 self.models[i].residuals[presample_length:],
@@ -304,18 +348,13 @@ class FEMBVVARX(FEMBV):
     def _initialize_components(self, data, parameters=None, init=None, **kwargs):
         """Generate initial guess for component parameters."""
 
-        self.X = data.copy()
-        if 'external_factors' in kwargs:
-            self.u = kwargs['external_factors'].copy()
-            self.u = check_array(self.u)
-        else:
-            self.u = None
-
-        n_samples, n_features = self.X.shape
+        n_samples, n_features = data.shape
 
-        if self.u is not None:
-            n_external = self.u.shape[1]
-            if self.u.shape[0] != n_samples:
+        u = kwargs.get('external_factors', None)
+        if u is not None:
+            u = check_array(u, copy=True)
+            n_external = u.shape[1]
+            if u.shape[0] != n_samples:
                 raise ValueError(
                     'number of external variable samples does not match '
                     'number of samples')
@@ -324,6 +363,15 @@ class FEMBVVARX(FEMBV):
 
         presample_length = np.max(self.memory)
 
+        has_initial_parameters = init == 'custom' and parameters is not None
+        if has_initial_parameters:
+            _check_init_parameters(
+                parameters, self.n_components, presample_length, n_features,
+                n_external, whom='_initialize_components (input parameters)')
+
+        self.X = data.copy()
+        self.u = u
+
         self.mu = np.zeros((self.n_components, n_features),
                            dtype=self.X.dtype)
         if presample_length > 0:
@@ -344,10 +392,23 @@ class FEMBVVARX(FEMBV):
             s=0)
             for i in range(self.n_components)]
 
-        # Initialize models by performing unweighted fits to
-        # given data
+        # Initialize models with the given parameters, or by performing
+        # unweighted fits to given data
         for i in range(self.n_components):
-            self.models[i].fit()
+            if has_initial_parameters:
+                self.mu[i] = parameters['mu'][i]
+                if self.memory[i] > 0:
+                    self.A[i, :self.memory[i]] = \
+                        parameters['A'][i][:self.memory[i]]
+                if self.u is not None:
+                    self.B0[i] = parameters['B0'][i]
+                self.models[i].set_parameters(
+                    self.mu[i],
+                    A=(self.A[i, :self.memory[i]]
+                       if self.memory[i] > 0 else None),
+                    B0=self.B0[i] if self.u is not None else None)
+            else:
+                self.models[i].fit()
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
-- 
2.43.0


From 7b0f85a0708030cddf76848e072495b0f45d4f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:11 +0000
Subject: [PATCH 20/39] fix: store the initial FEM-BV-VARX parameters when they
 are not to be updated

---
 src/reor/fembv_varx.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 7bb0589..5cea1c4 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -409,6 +409,7 @@ class FEMBVVARX(FEMBV):
                     B0=self.B0[i] if self.u is not None else None)
             else:
                 self.models[i].fit()
+                self._store_component_parameters(i)
 
         self.distance_matrix = np.empty(
             (n_samples - presample_length, self.n_components),
@@ -416,6 +417,17 @@ class FEMBVVARX(FEMBV):
 
         self._evaluate_distance_matrix()
 
+    def _store_component_parameters(self, i):
+        """Copy the parameters of the given component model."""
+
+        self.mu[i] = self.models[i].mu
+
+        if self.memory[i] > 0:
+            self.A[i, :self.memory[i]] = self.models[i].A
+
+        if self.u is not None:
+            self.B0[i] = self.models[i].B0
+
     def _update_parameters(self):
         """Update component parameters."""
 
@@ -430,11 +442,4 @@ class FEMBVVARX(FEMBV):
             weights[self.memory[i]:] = self.Gamma[:, i]
 
             self.models[i].fit(weights=weights)
-
-            self.mu[i] = self.models[i].mu
-
-            if self.memory[i] > 0:
-                self.A[i, :self.memory[i]] = self.models[i].A
-
-            if self.u is not None:
-                self.B0[i] = self.models[i].B0
+            self._store_component_parameters(i)
-- 
2.43.0


From a025e6fedfc5ed74d58e1a5e0bbd5faf623b7348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 21/39] fix: handle integer-valued data and guesses in the
 factorisation models

---
 src/reor/archetypal_analysis.py |  9 +++++++--
 src/reor/gpnh_convex_coding.py  |  7 +++++--
 src/reor/mtd_convex_coding.py   | 11 +++++++----
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 7febb5e..313a646 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -678,6 +678,7 @@ class KernelAA():
                    update_dictionary=True, update_weights=True, **kwargs):
         """Perform kernel archetypal analysis."""
 
+        kernel = np.asarray(kernel, dtype='f8')
         n_samples = kernel.shape[0]
 
         if kernel.shape[1] != n_samples:
@@ -726,8 +727,8 @@ class KernelAA():
                 random_state=self.random_state, **kwargs)
 
         self.K = kernel.copy()
-        self.S = weights.copy()
-        self.C = dictionary.copy()
+        self.S = np.array(weights, dtype='f8')
+        self.C = np.array(dictionary, dtype='f8')
 
         self._initialize_workspace()
 
@@ -809,6 +810,8 @@ class KernelAA():
             Representation of the data.
         """
 
+        kernel = np.asarray(kernel, dtype='f8')
+
         self._kernel_aa(
             kernel=kernel,
             dictionary=self.C,
@@ -947,6 +950,7 @@ class ArchetypalAnalysis(KernelAA):
             Representation of the data.
         """
         if self.kernel_func is None:
+            data = np.asarray(data, dtype='f8')
             kernel = np.dot(data, data.T)
         else:
             kernel = self.kernel_func(data)
@@ -978,6 +982,7 @@ class ArchetypalAnalysis(KernelAA):
         """
 
         if self.kernel_func is None:
+            data = np.asarray(data, dtype='f8')
             kernel = data.dot(data.T)
         else:
             kernel = self.kernel_func(data)
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 55c9836..320dc81 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -560,6 +560,7 @@ class GPNHConvexCoding():
                             **kwargs):
         """Calculate GPNH-regularized convex coding of dataset."""
 
+        data = np.asarray(data, dtype='f8')
         n_samples, n_features = data.shape
 
         if self.n_components is None:
@@ -603,8 +604,8 @@ class GPNHConvexCoding():
                 random_state=self.random_state, **kwargs)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
+        self.Gamma = np.array(weights, dtype='f8')
+        self.S = np.array(dictionary, dtype='f8')
 
         self._initialize_workspace()
 
@@ -677,6 +678,8 @@ class GPNHConvexCoding():
             Representation of the data.
         """
 
+        data = np.asarray(data, dtype='f8')
+
         weights = None
         if self.init == 'custom':
             weights = _initialize_gpnh_convex_coding_weights_random(
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 6cd2571..26a8099 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -767,6 +767,7 @@ class MTDConvexCoding():
                            update_parameters=True, **kwargs):
         """Calculate MTD-regularized convex coding of dataset."""
 
+        data = np.asarray(data, dtype='f8')
         n_samples, n_features = data.shape
         n_lags = self.lags.size
 
@@ -825,10 +826,10 @@ class MTDConvexCoding():
                         random_state=self.random_state)
 
         self.X = data.copy()
-        self.Gamma = weights.copy()
-        self.S = dictionary.copy()
-        self.order_weights = order_weights.copy()
-        self.transition_matrices = transition_matrices.copy()
+        self.Gamma = np.array(weights, dtype='f8')
+        self.S = np.array(dictionary, dtype='f8')
+        self.order_weights = np.array(order_weights, dtype='f8')
+        self.transition_matrices = np.array(transition_matrices, dtype='f8')
 
         self._initialize_workspace()
 
@@ -902,6 +903,8 @@ class MTDConvexCoding():
             Representation of the data.
         """
 
+        data = np.asarray(data, dtype='f8')
+
         weights = None
         if self.init == 'custom':
             weights = _initialize_mtd_convex_coding_weights_random(
-- 
2.43.0


From 317a5712dcea31c330db7e54f92fa986f1862438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:33 +0000
Subject: [PATCH 22/39] fix: handle integer-valued data in the FEM-BV and
 piecewise VARX models

---
 src/reor/fembv.py        | 3 ++-
 src/reor/fembv_kmeans.py | 2 +-
 src/reor/fembv_varx.py   | 4 ++--
 src/reor/pwvarx.py       | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index a7a1e64..0e0ce68 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -179,7 +179,7 @@ class FEMBV():
         if init == 'custom' and weights is not None:
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_initialize_weights (input weights)')
-            self.Gamma = weights.copy()
+            self.Gamma = np.array(weights, dtype='f8')
         else:
             self.Gamma = _initialize_fembv_weights(
                 n_samples, n_components=self.n_components, unused_init=init,
@@ -322,6 +322,7 @@ class FEMBV():
                    update_parameters=True, update_weights=True, **kwargs):
         """Calculate FEM-BV fit."""
 
+        data = np.asarray(data, dtype='f8')
         n_samples, n_features = data.shape
 
         if init is None:
diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index ddd929c..2eefdc7 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -159,7 +159,7 @@ class FEMBVKMeans(FEMBV):
             (n_samples, self.n_components), dtype=self.X.dtype)
 
         if init == 'custom' and parameters is not None:
-            self.Theta = parameters.copy()
+            self.Theta = np.array(parameters, dtype='f8')
         else:
             self.Theta = _initialize_fembv_kmeans_random(
                 self.X, self.n_components, random_state=self.random_state)
diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 5cea1c4..85ca190 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -40,7 +40,7 @@ class FEMBVVARXLocalLinearModel():
 
         self.p = p
 
-        self._y = check_array(y)
+        self._y = check_array(y, dtype='f8')
 
         n_samples, n_features = self._y.shape
 
@@ -54,7 +54,7 @@ class FEMBVVARXLocalLinearModel():
             self.A = None
 
         if u is not None:
-            self._u = check_array(u)
+            self._u = check_array(u, dtype='f8')
 
             if self._u.shape[0] != n_samples:
                 raise ValueError(
diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index 2f67cf2..bbae998 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -131,7 +131,7 @@ class ClusterPWVARX():
             self.B = None
 
         self.Sigma_u = np.zeros((self.n_components, n_endog, n_endog))
-        self.residuals = np.zeros_like(y)
+        self.residuals = np.zeros_like(y, dtype='f8')
         for k in range(self.n_components):
 
             component_mask = labels == k
-- 
2.43.0


From 55bb1141450985b97dbe61b4be800cb33cc9329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:06 +0000
Subject: [PATCH 23/39] fix: keep the centroid of an empty FEM-BV-k-means
 cluster

---
 src/reor/fembv_kmeans.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_kmeans.py b/src/reor/fembv_kmeans.py
index 2eefdc7..19736d9 100644
--- a/src/reor/fembv_kmeans.py
+++ b/src/reor/fembv_kmeans.py
@@ -169,8 +169,13 @@ class FEMBVKMeans(FEMBV):
     def _update_parameters(self):
         """Update k-means cluster assignments."""
 
-        self.Theta = np.dot(self.Gamma.T, self.X)
         normalizations = np.sum(self.Gamma, axis=0)
-        self.Theta = self.Theta / normalizations[:, np.newaxis]
+
+        # centroids of empty clusters are left unchanged
+        nonempty = normalizations > 0
+        Theta = self.Theta.copy()
+        Theta[nonempty] = (np.dot(self.Gamma.T, self.X)[nonempty] /
+                           normalizations[nonempty, np.newaxis])
+        self.Theta = Theta
 
         self._evaluate_distance_matrix()
-- 
2.43.0


From 61251652c49f9c207c52bf2b0314ff03889744e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:16 +0000
Subject: [PATCH 24/39] fix: do not fail on a singular residual covariance in
 FEM-BV-VARX fits

---
 src/reor/fembv_varx.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 85ca190..4f27f0d 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -182,7 +182,10 @@ class FEMBVVARXLocalLinearModel():
             self.Sigma_u = np.dot(weighted_residuals.T,
                                   weighted_residuals) / df
 
-        self.Sigma_u_inv = np.linalg.inv(self.Sigma_u)
+        if np.all(np.isfinite(self.Sigma_u)):
+            self.Sigma_u_inv = np.linalg.pinv(self.Sigma_u)
+        else:
+            self.Sigma_u_inv = np.full_like(self.Sigma_u, np.nan)
 
 
 
-- 
2.43.0


From 4bf6044e4a7611ad5f4514cbd0bd6f4f33c1e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:38 +0000
Subject: [PATCH 25/39] fix: warn when the Markov parameters fit of
 GPNHConvexCodingCROM does not converge

---
 src/reor/gpnh_convex_coding_crom.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 63f776c..25b9299 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -6,6 +6,7 @@ Provides routines for cluster-based model order reduction.
 from collections import deque
 import numbers
 import time
+import warnings
 import numpy as np
 
 from reor.gpnh_convex_coding import GPNHConvexCoding
@@ -330,6 +331,11 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
                     print('*** Converged at iteration {:d} ***'.format(
                         n_iter + 1))
                 break
+        else:
+            if self.tolerance > 0:
+                warnings.warn('Maximum number of iterations %d reached '
+                              'in Markov parameters fit.' %
+                              self.max_iterations, UserWarning)
 
     def fit_transform(self, data, **kwargs):
         """Fit convex coding and return transformed data.
-- 
2.43.0


From 08c0e15558167eb33242af68f2d80fdfec622931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:13 +0000
Subject: [PATCH 26/39] fix: avoid dividing by zero when a series is no longer
 than the largest lag

---
 src/reor/gpnh_convex_coding_crom.py | 4 ++--
 src/reor/mtd_convex_coding.py       | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 25b9299..9cba878 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -156,7 +156,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
 
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         value += np.linalg.norm(self.Gamma[max_lag:] - self.Z[max_lag:]) ** 2
 
@@ -167,7 +167,7 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
 
         max_lag = self.lags.max()
         n_samples = self.X.shape[0]
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         residual = self.Gamma[max_lag:] - self.Z[max_lag:]
 
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 26a8099..6589048 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -358,7 +358,7 @@ class MTDConvexCoding():
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
 
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         value += np.linalg.norm(self.Gamma[max_lag:] - self.Z[max_lag:]) ** 2
 
@@ -486,7 +486,7 @@ class MTDConvexCoding():
 
         n_samples = self.X.shape[0]
         max_lag = self.lags.max()
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         residual = self.Gamma - self.Z
         for i, lag in enumerate(self.lags):
@@ -587,7 +587,7 @@ class MTDConvexCoding():
 
         max_lag = self.lags.max()
         n_samples = self.X.shape[0]
-        normalization = 1.0 / (self.n_components * (n_samples - max_lag))
+        normalization = 1.0 / (self.n_components * max(n_samples - max_lag, 1))
 
         residual = self.Gamma[max_lag:] - self.Z[max_lag:]
 
-- 
2.43.0


From 57e794afee67c59da09b3064d90fd3ffc2a2ab42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 27/39] fix: pass the random state of ClusterPWVARX to its
 default classifier

---
 src/reor/pwvarx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index bbae998..e7c18c0 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -205,7 +205,7 @@ class ClusterPWVARX():
         self._cluster(y, x)
 
         if self.classifier is None:
-            self.classifier = SVC()
+            self.classifier = SVC(random_state=self.random_state)
 
         self.classifier.fit(x, self.cluster_labels_)
         labels = self.classifier.predict(x)
-- 
2.43.0


From 8058e9ff7ee94b311a2c3cf2e3dcf8197ecac9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:44 +0000
Subject: [PATCH 28/39] fix: report missing MTD order weights with a ValueError

---
 src/reor/mtd_convex_coding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 6589048..0cf2361 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -38,8 +38,8 @@ def _check_init_dictionary(dictionary, shape, whom):
 
 
 def _check_init_order_weights(order_weights, shape, whom):
+    _check_array_shape(np.asarray(order_weights), shape, whom)
     order_weights = check_array(order_weights, ensure_2d=False)
-    _check_array_shape(order_weights, shape, whom)
     _check_unit_axis_sums(order_weights, whom, axis=0)
 
 
-- 
2.43.0


From 7699fb70ca2d6645c483707e2a2c92e39e9444f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:03 +0000
Subject: [PATCH 29/39] fix: refuse series no longer than the memory before
 touching the FEM-BV-VARX model

---
 src/reor/fembv_varx.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index 4f27f0d..ab4c8b3 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -366,14 +366,28 @@ class FEMBVVARX(FEMBV):
 
         presample_length = np.max(self.memory)
 
+        if n_samples <= presample_length:
+            raise ValueError(
+                'number of samples must be larger than the maximum memory')
+
         has_initial_parameters = init == 'custom' and parameters is not None
         if has_initial_parameters:
             _check_init_parameters(
                 parameters, self.n_components, presample_length, n_features,
                 n_external, whom='_initialize_components (input parameters)')
 
-        self.X = data.copy()
+        X = data.copy()
+        models = [FEMBVVARXLocalLinearModel(
+            X[presample_length - self.memory[i]:],
+            p=self.memory[i],
+            u=(u[presample_length - self.memory[i]:]
+               if u is not None else None),
+            s=0)
+            for i in range(self.n_components)]
+
+        self.X = X
         self.u = u
+        self.models = models
 
         self.mu = np.zeros((self.n_components, n_features),
                            dtype=self.X.dtype)
@@ -387,14 +401,6 @@ class FEMBVVARX(FEMBV):
         else:
             self.B0 = None
 
-        self.models = [FEMBVVARXLocalLinearModel(
-            self.X[presample_length - self.memory[i]:],
-            p=self.memory[i],
-            u=(self.u[presample_length - self.memory[i]:]
-               if self.u is not None else None),
-            s=0)
-            for i in range(self.n_components)]
-
         # Initialize models with the given parameters, or by performing
         # unweighted fits to given data
         for i in range(self.n_components):
-- 
2.43.0


From 43ce0da651b08d8d0b8a9903f46ec0e843fc1979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 30/39] fix: draw the FurthestSum start among the samples not
 excluded

---
 src/reor/archetypal_analysis.py | 7 ++++---
 src/reor/gpnh_convex_coding.py  | 7 ++++---
 src/reor/mtd_convex_coding.py   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 313a646..94d3557 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -64,12 +64,13 @@ def _initialize_kernel_aa_dictionary_furthest_sum(
     rng = check_random_state(random_state)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        allowed = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = allowed[rng.randint(allowed.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 320dc81..5c61dad 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -55,12 +55,13 @@ def _initialize_gpnh_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        allowed = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = allowed[rng.randint(allowed.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 0cf2361..1228eda 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -69,12 +69,13 @@ def _initialize_mtd_convex_coding_dictionary_furthest_sum(
     kernel = data.dot(data.T)
 
     n_samples = kernel.shape[0]
-    if start_index is None:
-        start_index = rng.randint(n_samples)
-
     if exclude is None:
         exclude = np.array([], dtype='i8')
 
+    if start_index is None:
+        allowed = np.setdiff1d(np.arange(n_samples), exclude)
+        start_index = allowed[rng.randint(allowed.size)]
+
     kernel_diag = np.diag(kernel)
     dissimilarities = np.sqrt(np.fmax(
         np.tile(kernel_diag, (n_samples, 1)) -
-- 
2.43.0


From 8e66ec25d3feb1b58959e9f4eccec1f52d3d29ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:05 +0000
Subject: [PATCH 31/39] fix: weigh VARX samples in double precision whatever
 the weights' type

---
 src/reor/fembv_varx.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index ab4c8b3..ee604f3 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -134,6 +134,7 @@ class FEMBVVARXLocalLinearModel():
             params = np.linalg.lstsq(
                 self._z, self._y[presample_length:], rcond=None)[0]
         else:
+            weights = np.asarray(weights, dtype='f8')
             if weights.shape != (n_samples,):
                 raise ValueError('Number of weights does not match '
                                  'number of samples')
-- 
2.43.0


From 39fd822bc3d72c3eb1566b93648265a3064058ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:32 +0000
Subject: [PATCH 32/39] fix: refuse an unknown initialisation also when both
 factors are held fixed

---
 src/reor/archetypal_analysis.py | 5 +++++
 src/reor/gpnh_convex_coding.py  | 5 +++++
 src/reor/mtd_convex_coding.py   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index 94d3557..d6f9158 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -700,6 +700,11 @@ class KernelAA():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if self.init != 'custom' and self.init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (self.init, INITIALIZATION_METHODS))
+
         if self.init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_kernel_aa (input weights)')
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index 5c61dad..c4fd3e0 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -577,6 +577,11 @@ class GPNHConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if self.init != 'custom' and self.init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (self.init, INITIALIZATION_METHODS))
+
         if self.init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_gpnh_convex_coding (input weights)')
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index 1228eda..dfd5caf 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -785,6 +785,11 @@ class MTDConvexCoding():
             raise ValueError('Tolerance for stopping criteria must be '
                              'positive; got (tolerance=%r)' % self.tolerance)
 
+        if self.init != 'custom' and self.init not in INITIALIZATION_METHODS:
+            raise ValueError(
+                'Invalid init parameter: got %r instead of one of %r' %
+                (self.init, INITIALIZATION_METHODS))
+
         if self.init == 'custom':
             _check_init_weights(weights, (n_samples, self.n_components),
                                 '_mtd_convex_coding (input weights)')
-- 
2.43.0


From d67305be2d7d862cd1281b9195ff49eeb93cb206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:39 +0000
Subject: [PATCH 33/39] fix: FEM-BV-VARX takes an unset or invalid number of
 components to the fit

---
 src/reor/fembv_varx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/reor/fembv_varx.py b/src/reor/fembv_varx.py
index ee604f3..c40a896 100644
--- a/src/reor/fembv_varx.py
+++ b/src/reor/fembv_varx.py
@@ -295,8 +295,10 @@ class FEMBVVARX(FEMBV):
                          tolerance=tolerance, verbose=verbose,
                          random_state=random_state, **kwargs)
 
+        # A common memory is assigned to the components when fitting, once
+        # their number is known
         if memory is None:
-            self.memory = np.full((n_components,), 0, dtype='i8')
+            self.memory = np.array(0, dtype='i8')
         else:
             if isinstance(memory, INTEGER_TYPES):
                 if memory < 0:
@@ -304,7 +306,7 @@ class FEMBVVARX(FEMBV):
                         'Maximum memory must be a non-negative integer;'
                         ' got (memory=%d)' % memory)
 
-                self.memory = np.full((n_components,), memory, dtype='i8')
+                self.memory = np.array(memory, dtype='i8')
             elif isinstance(memory, (list, tuple)):
                 self.memory = np.asarray(memory, dtype='i8')
                 if self.memory.shape != (n_components,):
@@ -365,6 +367,10 @@ class FEMBVVARX(FEMBV):
         else:
             n_external = 0
 
+        if self.memory.ndim == 0:
+            self.memory = np.full((self.n_components,), self.memory,
+                                  dtype='i8')
+
         presample_length = np.max(self.memory)
 
         if n_samples <= presample_length:
-- 
2.43.0


From 3220086479f3f271a0dc599e231ece41d79266d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:56 +0000
Subject: [PATCH 34/39] fix: solve for the FEM-BV weights with distances of
 unit scale

---
 src/reor/fembv.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/reor/fembv.py b/src/reor/fembv.py
index 0e0ce68..3ba9d58 100644
--- a/src/reor/fembv.py
+++ b/src/reor/fembv.py
@@ -231,8 +231,17 @@ class FEMBV():
 
         gamma_vec = cp.Variable(n_weight_parameters)
 
+        # The weights of each sample sum to one, so the optimal weights do not
+        # depend on an offset common to all distances of a sample, nor on the
+        # scale of the distances; the tolerances of the solver do.
+        distances = (self.distance_matrix -
+                     self.distance_matrix.min(axis=1, keepdims=True))
+        scale = distances.max()
+        if scale > 0:
+            distances = distances / scale
+
         c = np.zeros((n_weight_parameters,))
-        c[:self.Gamma.size] = self.distance_matrix.ravel()
+        c[:self.Gamma.size] = distances.ravel()
 
         constraints = [self.A_eq @ gamma_vec == self.b_eq,
                        self.A_ub @ gamma_vec <= self.b_ub]
-- 
2.43.0


From 8ffd5e2b9a61a28ccd8eb47499cc72e7214c01fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:10 +0000
Subject: [PATCH 35/39] fix: project large vectors onto the simplex without
 losing digits

---
 src/reor/simplex_projection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reor/simplex_projection.py b/src/reor/simplex_projection.py
index 3d69c12..51669d1 100644
--- a/src/reor/simplex_projection.py
+++ b/src/reor/simplex_projection.py
@@ -9,6 +9,10 @@ import numpy as np
 def simplex_project_vector(x, out=None):
     """Project vector onto standard simplex."""
 
+    # The projection does not depend on a common offset, which would
+    # only cancel significant digits of large entries.
+    x = x - np.max(x)
+
     sorted_x = np.sort(x)
 
     n = sorted_x.size
-- 
2.43.0


From 9e24e36bd76c2d26b4e38802e75ee2a276160fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:26 +0000
Subject: [PATCH 36/39] fix: forecasts without enough history are NaN also for
 a zero dictionary

---
 src/reor/gpnh_convex_coding_crom.py | 6 +++++-
 src/reor/mtd_convex_coding.py       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/reor/gpnh_convex_coding_crom.py b/src/reor/gpnh_convex_coding_crom.py
index 9cba878..9f06ce7 100644
--- a/src/reor/gpnh_convex_coding_crom.py
+++ b/src/reor/gpnh_convex_coding_crom.py
@@ -436,4 +436,8 @@ class GPNHConvexCodingCROM(GPNHConvexCoding):
                 lagged_weights[-1] = next_weights
             predicted_weights[i] = lagged_weights[-1]
 
-        return self.inverse_transform(predicted_weights)
+        # a vanishing dictionary need not propagate undefined weights
+        predictions = self.inverse_transform(predicted_weights)
+        predictions[:max_lag - 1] = np.NaN
+
+        return predictions
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index dfd5caf..baf3782 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -980,7 +980,11 @@ class MTDConvexCoding():
                 lagged_weights[-1] = next_weights
             predicted_weights[i] = lagged_weights[-1]
 
-        return self.inverse_transform(predicted_weights)
+        # a vanishing dictionary need not propagate undefined weights
+        predictions = self.inverse_transform(predicted_weights)
+        predictions[:max_lag - 1] = np.NaN
+
+        return predictions
 
     def inverse_transform(self, weights):
         """Transform data back into its original space.
-- 
2.43.0


From 5fa37d200dfff2914d8059d890cba1d3964fc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:59 +0000
Subject: [PATCH 37/39] fix: inverse_transform takes array-like weights

---
 src/reor/archetypal_analysis.py | 2 +-
 src/reor/gpnh_convex_coding.py  | 2 +-
 src/reor/mtd_convex_coding.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reor/archetypal_analysis.py b/src/reor/archetypal_analysis.py
index d6f9158..a11c72a 100644
--- a/src/reor/archetypal_analysis.py
+++ b/src/reor/archetypal_analysis.py
@@ -840,7 +840,7 @@ class KernelAA():
             Matrix of coefficients for original data.
         """
 
-        return weights.dot(self.C)
+        return np.asarray(weights).dot(self.C)
 
 
 class ArchetypalAnalysis(KernelAA):
diff --git a/src/reor/gpnh_convex_coding.py b/src/reor/gpnh_convex_coding.py
index c4fd3e0..4028c57 100644
--- a/src/reor/gpnh_convex_coding.py
+++ b/src/reor/gpnh_convex_coding.py
@@ -713,4 +713,4 @@ class GPNHConvexCoding():
             Weights transformed to original space.
         """
 
-        return weights.dot(self.S)
+        return np.asarray(weights).dot(self.S)
diff --git a/src/reor/mtd_convex_coding.py b/src/reor/mtd_convex_coding.py
index baf3782..397a83d 100644
--- a/src/reor/mtd_convex_coding.py
+++ b/src/reor/mtd_convex_coding.py
@@ -1000,4 +1000,4 @@ class MTDConvexCoding():
             Weights transformed to original space.
         """
 
-        return weights.dot(self.S)
+        return np.asarray(weights).dot(self.S)
-- 
2.43.0


From 20a622cae55881f42708db3d88466fffeef1f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:59 +0000
Subject: [PATCH 38/39] fix: piecewise VARX models take array-like data

---
 src/reor/pwvarx.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reor/pwvarx.py b/src/reor/pwvarx.py
index e7c18c0..13a8c88 100644
--- a/src/reor/pwvarx.py
+++ b/src/reor/pwvarx.py
@@ -63,6 +63,10 @@ class ClusterPWVARX():
 
     def _stack_predictors(self, endog, exog=None):
 
+        endog = np.asarray(endog)
+        if exog is not None:
+            exog = np.asarray(exog)
+
         n_samples = endog.shape[0]
 
         if endog.ndim == 1:
@@ -193,6 +197,8 @@ class ClusterPWVARX():
             Representation of the data.
         """
 
+        endog = np.asarray(endog)
+
         presample_length = max(self.p, self.s)
 
         if endog.ndim == 1:
-- 
2.43.0


From d386aed69ad9eb38b12f7f30b87b2a9f8d6380b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:59 +0000
Subject: [PATCH 39/39] fix: furthest_sum takes array-like dissimilarities

---
 src/reor/furthest_sum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/reor/furthest_sum.py b/src/reor/furthest_sum.py
index dd1ff0f..4b22f0b 100644
--- a/src/reor/furthest_sum.py
+++ b/src/reor/furthest_sum.py
@@ -153,6 +153,8 @@ def furthest_sum(dissimilarity_matrix, n_components, start_index,
         Indices of selected sample points.
     """
 
+    dissimilarity_matrix = np.asarray(dissimilarity_matrix)
+
     if dissimilarity_matrix.shape[0] != dissimilarity_matrix.shape[1]:
         raise ValueError(
             'Dissimilarity matrix must be square, but got shape %r' %
-- 
2.43.0

