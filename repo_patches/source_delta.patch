From d68818620b8aaf090cbaf4b94ab86076750a5e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 01/85] fix: LSML metric learning ignores the random state,
 making seeded sampling irreproducible

---
 smote_variants/base/_metrictensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 9fe6b85..7f76d57 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -571,7 +571,11 @@ class MetricTensor:
                     .get_mahalanobis_matrix()
                 )
             if method == "LSML":
-                return LSML_Supervised().fit(X, y).get_mahalanobis_matrix()
+                return (
+                    LSML_Supervised(random_state=random_state)
+                    .fit(X, y)
+                    .get_mahalanobis_matrix()
+                )
 
             return NCA().fit(X, y).get_mahalanobis_matrix()
 
-- 
2.43.0


From 170678696c145852440b4d6c4e4c15a123cdb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 02/85] fix: PCA with the randomized solver draws from the
 global generator in seeded oversamplers

---
 smote_variants/oversampling/_adg.py             | 4 +++-
 smote_variants/oversampling/_adoms.py           | 2 +-
 smote_variants/oversampling/_assembled_smote.py | 8 ++++++--
 smote_variants/oversampling/_gazzah.py          | 5 ++++-
 smote_variants/oversampling/_kerneladasyn.py    | 4 +++-
 smote_variants/oversampling/_v_synth.py         | 4 +++-
 6 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 808d9df..cf0125b 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -379,7 +379,9 @@ class ADG(OverSampling):
         # if n_components == 0:
         #    return None, None
 
-        pca = PCA(n_components=n_components).fit(X)
+        pca = PCA(
+            n_components=n_components, random_state=self._random_state_init
+        ).fit(X)
 
         x_trans = pca.transform(X)
 
diff --git a/smote_variants/oversampling/_adoms.py b/smote_variants/oversampling/_adoms.py
index caffa5d..181c27c 100755
--- a/smote_variants/oversampling/_adoms.py
+++ b/smote_variants/oversampling/_adoms.py
@@ -121,7 +121,7 @@ class ADOMS(OverSampling):
             np.array: the generated sample
         """
         # fitting the PCA
-        pca = PCA(n_components=1)
+        pca = PCA(n_components=1, random_state=self._random_state_init)
         pca.fit(neighbors)
 
         # extracting the principal direction
diff --git a/smote_variants/oversampling/_assembled_smote.py b/smote_variants/oversampling/_assembled_smote.py
index c81bd2a..1ecee48 100755
--- a/smote_variants/oversampling/_assembled_smote.py
+++ b/smote_variants/oversampling/_assembled_smote.py
@@ -229,8 +229,12 @@ class Assembled_SMOTE(OverSamplingSimplex):
                 with warnings.catch_warnings():
                     if suppress_external_warnings():
                         warnings.simplefilter("ignore")
-                    pca_a = PCA(n_components=1).fit(X_border[clusters[merge_a]])
-                    pca_b = PCA(n_components=1).fit(X_border[clusters[merge_b]])
+                    pca_a = PCA(
+                        n_components=1, random_state=self._random_state_init
+                    ).fit(X_border[clusters[merge_a]])
+                    pca_b = PCA(
+                        n_components=1, random_state=self._random_state_init
+                    ).fit(X_border[clusters[merge_b]])
                 # extract the angle of principal directions
                 numerator = np.dot(pca_a.components_[0], pca_b.components_[0])
                 denominator = np.linalg.norm(pca_a.components_[0])
diff --git a/smote_variants/oversampling/_gazzah.py b/smote_variants/oversampling/_gazzah.py
index 3c137db..e0a6280 100755
--- a/smote_variants/oversampling/_gazzah.py
+++ b/smote_variants/oversampling/_gazzah.py
@@ -131,7 +131,10 @@ class Gazzah(OverSampling):
         X_maj = X[y == self.maj_label]
 
         # fitting the PCA model
-        pca = PCA(n_components=min([len(X[0]), self.n_components]))
+        pca = PCA(
+            n_components=min([len(X[0]), self.n_components]),
+            random_state=self._random_state_init,
+        )
         X_maj_trans = pca.fit_transform(X_maj)  # pylint: disable=invalid-name
         R = np.sqrt(np.sum(np.var(X_maj_trans, axis=0)))  # pylint: disable=invalid-name
 
diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 986b411..227a302 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -213,7 +213,9 @@ class KernelADASYN(OverSampling):
 
             n_components = int(np.rint(len(covariance) / 2))
 
-            pca = PCA(n_components=n_components)
+            pca = PCA(
+                n_components=n_components, random_state=self._random_state_init
+            )
             X_trans = pca.fit_transform(X)  # pylint: disable=invalid-name
 
             kernela = KernelADASYN(
diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 3ad0169..3b751cd 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -212,7 +212,9 @@ class V_SYNTH(OverSampling):
         component_mask = np.array([True] * n_components)
 
         while np.sum(component_mask) > 1:
-            pca = PCA(n_components=n_components)
+            pca = PCA(
+                n_components=n_components, random_state=self._random_state_init
+            )
             X_pca = pca.fit_transform(X_bb)  # pylint: disable=invalid-name
             y_pca = np.hstack([y, np.repeat(-1, len(bounding_box))])
 
-- 
2.43.0


From 548937337e1df7e80c919141f845f456b32a331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:48 +0000
Subject: [PATCH 03/85] fix: E_SMOTE draws its initial mask from the global
 generator

---
 smote_variants/oversampling/_e_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 68e8f0f..b5e5f0a 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -209,7 +209,7 @@ class E_SMOTE(OverSampling):
 
         # creating initial mask
         mask = np.repeat([False], X.shape[1])
-        mask[np.random.choice(np.arange(mask.shape[0]), 1)] = True
+        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
 
         # generating initial population
         population = [[0, mask.copy()] for _ in range(n_population)]
-- 
2.43.0


From f1b032278d7f14081660768b962a71a7478add37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:36 +0000
Subject: [PATCH 04/85] fix: SMOTEWB falls back to an unseeded SMOTE when every
 point is noise

---
 smote_variants/oversampling/_smotewb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index b4a6760..cac99b4 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -263,7 +263,11 @@ class SMOTEWB(OverSampling):
 
         # all data points are noise
         if len(X_not_noise) == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_neighbors = min([len(X_not_noise), k_max + 1])
@@ -305,7 +309,11 @@ class SMOTEWB(OverSampling):
         # prevent errors (missing from the original) no good or lonely
         # samples => give chance to the others
         if n_good_min + n_lonely_min == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
-- 
2.43.0


From 8f1c00dff06a7877eab85f5579dba5767ce76f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:36 +0000
Subject: [PATCH 05/85] fix: SMOTE_AMSR returns the caller's own arrays when no
 sampling is needed

---
 smote_variants/oversampling/_smote_amsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 342b56c..3b1ac69 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -427,7 +427,7 @@ class SMOTE_AMSR(OverSampling):
         )
         if n_to_sample == 0:
             _logger.warning("%s: Sampling is not needed", self.__class__.__name__)
-            return X, y
+            return X.copy(), y.copy()
 
         mda_scores, clf_anomaly = self._in_danger_iforest(X, y, self.min_label)
 
-- 
2.43.0


From fc70a8ac36e1d90f8ff9118734d7179d4f07f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:25 +0000
Subject: [PATCH 06/85] fix: importing the datasets reseeds the global random
 generator

---
 smote_variants/datasets/_datasets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smote_variants/datasets/_datasets.py b/smote_variants/datasets/_datasets.py
index 3772fa7..41ce69b 100644
--- a/smote_variants/datasets/_datasets.py
+++ b/smote_variants/datasets/_datasets.py
@@ -649,8 +649,7 @@ def load_alternating():
     return {"data": X_alternating, "target": y_alternating, "name": "alternating"}
 
 
-np.random.seed(42)
-X_high_dim = np.random.normal(size=(20, 40))
+X_high_dim = np.random.RandomState(42).normal(size=(20, 40))
 y_high_dim = np.hstack([np.repeat(1, 7), np.repeat(0, 13)])
 
 
-- 
2.43.0


From c4695c148d54d9d138281a354a744d1abf3f093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 07/85] fix: get_params of six oversamplers omits constructor
 parameters

---
 smote_variants/oversampling/_deago.py   | 1 +
 smote_variants/oversampling/_pdfos.py   | 1 +
 smote_variants/oversampling/_smotewb.py | 1 +
 smote_variants/oversampling/_somo.py    | 1 +
 smote_variants/oversampling/_spy.py     | 1 +
 smote_variants/oversampling/_symprod.py | 1 +
 6 files changed, 6 insertions(+)

diff --git a/smote_variants/oversampling/_deago.py b/smote_variants/oversampling/_deago.py
index a88272a..3d5ac4f 100755
--- a/smote_variants/oversampling/_deago.py
+++ b/smote_variants/oversampling/_deago.py
@@ -308,6 +308,7 @@ class DEAGO(OverSampling):
         return {
             "proportion": self.proportion,
             "n_neighbors": self.n_neighbors,
+            "nn_params": self.nn_params,
             "e": self.encoder_params["e"],
             "h": self.encoder_params["h"],
             "sigma": self.encoder_params["sigma"],
diff --git a/smote_variants/oversampling/_pdfos.py b/smote_variants/oversampling/_pdfos.py
index 44c1577..a79e5db 100755
--- a/smote_variants/oversampling/_pdfos.py
+++ b/smote_variants/oversampling/_pdfos.py
@@ -386,6 +386,7 @@ class PDFOS(OverSampling):
         """
         return {
             "proportion": self.proportion,
+            "metric_learning": self.metric_learning,
             "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index cac99b4..fdf735c 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -386,5 +386,6 @@ class SMOTEWB(OverSampling):
             "max_depth": self.max_depth,
             "nn_params": self.nn_params,
             "n_iters": self.n_iters,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self, deep),
         }
diff --git a/smote_variants/oversampling/_somo.py b/smote_variants/oversampling/_somo.py
index 900cb25..4d027ff 100755
--- a/smote_variants/oversampling/_somo.py
+++ b/smote_variants/oversampling/_somo.py
@@ -433,6 +433,7 @@ class SOMO(OverSamplingSimplex):
             "sigma": self.params["sigma"],
             "learning_rate": self.params["learning_rate"],
             "n_iter": self.params["n_iter"],
+            "nn_params": self.nn_params,
             "n_jobs": self.n_jobs,
             **OverSamplingSimplex.get_params(self),
         }
diff --git a/smote_variants/oversampling/_spy.py b/smote_variants/oversampling/_spy.py
index f4fd83e..3b8d6c0 100755
--- a/smote_variants/oversampling/_spy.py
+++ b/smote_variants/oversampling/_spy.py
@@ -167,5 +167,6 @@ class SPY(OverSampling):
             "n_neighbors": self.n_neighbors,
             "nn_params": self.nn_params,
             "threshold": self.threshold,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index ae3616e..633894b 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -487,5 +487,6 @@ class SYMPROD(OverSampling):
             "m_neighbors": self.params["m_neighbors"],
             "cutoff_threshold": self.params["cutoff_threshold"],
             "nn_params": self.nn_params,
+            "n_jobs": self.n_jobs,
             **OverSampling.get_params(self),
         }
-- 
2.43.0


From 7d9b32389de734c1d6f10ed37bbc93a60e5a8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 08/85] fix: MLPClassifierWrapper.get_params and copy drop
 max_iter

---
 smote_variants/classifiers/_mlpclassifierwrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_mlpclassifierwrapper.py b/smote_variants/classifiers/_mlpclassifierwrapper.py
index 6344b20..9762b58 100755
--- a/smote_variants/classifiers/_mlpclassifierwrapper.py
+++ b/smote_variants/classifiers/_mlpclassifierwrapper.py
@@ -104,6 +104,7 @@ class MLPClassifierWrapper:
         """
         _ = deep
         return {
+            "max_iter": self.max_iter,
             "activation": self.activation,
             "hidden_layer_fraction": self.hidden_layer_fraction,
             "alpha": self.alpha,
-- 
2.43.0


From a91fdc618d76723d96a033ddbf8749464f53af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 09/85] fix: SamplingJob.get_params omits the scaler

---
 smote_variants/evaluation/_sampling.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index fbe1539..df8dbc0 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -72,6 +72,7 @@ class SamplingJob(TimeoutJobBase):
             "folding": self.folding,
             "oversampler": self.oversampler,
             "oversampler_params": self.oversampler_params.copy(),
+            "scaler": self.scaler,
             "cache_path": self.cache_path,
             "serialization": self.serialization,
             "reset": self.reset,
-- 
2.43.0


From 063577341c99306db1a33bafc1d9359ef3b0d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:52 +0000
Subject: [PATCH 10/85] fix: ADASYN ignores proportion=0

---
 smote_variants/oversampling/_adasyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index 3314425..f6b3dc4 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -91,7 +91,7 @@ class ADASYN(OverSamplingSimplex):
 
         self.n_neighbors = n_neighbors
         self.d_th = d_th
-        self.beta = proportion or beta
+        self.beta = beta if proportion is None else proportion
         self.proportion = self.beta
         self.nn_params = nn_params
         self.n_jobs = n_jobs
-- 
2.43.0


From 81441232e2bae521bcb0654b2a11dd0d1dfc833d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:20 +0000
Subject: [PATCH 11/85] fix: SMOTE_AMSR.get_params lacks the class name the
 query interface reads

---
 smote_variants/oversampling/_smote_amsr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 3b1ac69..cbad143 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -25,7 +25,9 @@ class SMOTE_AMSR(OverSampling):
     categories = [OverSampling.cat_extensive]
 
     # @_deprecate_positional_args
-    def __init__(self, proportion=1.0, *, topology="mesh", random_state=None):
+    def __init__(
+        self, proportion=1.0, *, topology="mesh", random_state=None, **_kwargs
+    ):
         """
         Constructor of the sampling object
 
@@ -445,5 +447,5 @@ class SMOTE_AMSR(OverSampling):
         return {
             "proportion": self.proportion,
             "topology": self.topology,
-            "random_state": self._random_state_init,
+            **OverSampling.get_params(self, deep),
         }
-- 
2.43.0


From e0ae0274106fcfff67b0872539bb2a886e9687eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:20 +0000
Subject: [PATCH 12/85] fix: OversamplingDrivenUndersampling.get_params omits
 its own parameters

---
 .../_oversampling_driven_undersampling.py          | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index 9e63aa2..babf387 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -22,6 +22,7 @@ class OversamplingDrivenUndersampling(UnderSampling):
             mode (str): 'random'/'farthest' - the mode of sample removal
         """
         UnderSampling.__init__(self, random_state=random_state)
+        self.oversampler_specification = oversampler_specification
         self.oversampler = instantiate_obj(oversampler_specification)
         self.mode = mode
 
@@ -83,3 +84,16 @@ class OversamplingDrivenUndersampling(UnderSampling):
         y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
 
         return X_res, y_res
+
+    def get_params(self, deep=False):
+        """
+        Returns the parameters of the object as a dictionary.
+
+        Returns:
+            dict: the parameters of the object
+        """
+        return {
+            "oversampler_specification": self.oversampler_specification,
+            "mode": self.mode,
+            **UnderSampling.get_params(self, deep),
+        }
-- 
2.43.0


From 44fa541475db783c8f82b8628c19fc05661382b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:27 +0000
Subject: [PATCH 13/85] fix: the test part of a sampled fold is not scaled with
 the training scaler

---
 smote_variants/evaluation/_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index df8dbc0..7b86d8b 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -161,7 +161,7 @@ class SamplingJob(TimeoutJobBase):
         with warnings.catch_warnings(record=True) as warning:
             try:
                 X_samp, y_samp = oversampler_obj.sample(X_train, y_train)
-                X_test = oversampler_obj.preprocessing_transform(folding["X_test"])
+                X_test = oversampler_obj.preprocessing_transform(X_test)
                 oversampling = {
                     **oversampling,
                     "X_train": X_samp,
-- 
2.43.0


From 384cf0e5f8f5b3e97a5db5ff9b807dba97c92013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 14/85] fix: all the folds of a folding share one mutable
 descriptor

---
 smote_variants/evaluation/_folding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 644ff9c..66501c7 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -126,7 +126,7 @@ class Folding:
                 "y_train": target[train],
                 "X_test": data[test],
                 "y_test": target[test],
-                "fold_descriptor": properties,
+                "fold_descriptor": properties.copy(),
             }
 
             yield folding
-- 
2.43.0


From 8ec15f0b5d7850f44bf1c9975fc03ddfdd70d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 15/85] fix: Folding uses class labels as positions in the
 class counts

---
 smote_variants/evaluation/_folding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 66501c7..a17ea94 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -53,9 +53,9 @@ class Folding:
         min_label = int(np.max(labels[counts == np.min(counts)]))
         maj_label = int(labels[labels != min_label][0])
 
-        n_min = int(counts[min_label])
-        n_maj = int(counts[maj_label])
-        imb_ratio = float(counts[maj_label] / counts[min_label])
+        n_min = int(counts[labels == min_label][0])
+        n_maj = int(counts[labels == maj_label][0])
+        imb_ratio = float(n_maj / n_min)
 
         self.properties = {
             "db_n": len(dataset["data"]),
-- 
2.43.0


From ad524da1bf3553b683088bd0871338852a8a935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 16/85] fix: a truncated pickle in the cache raises instead of
 counting as damaged

---
 smote_variants/base/_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 5f93a8a..de39ba4 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -283,7 +283,9 @@ def check_if_damaged(filename, serialization="json"):
         load_dict(filename, serialization)
     except FileNotFoundError:
         damaged = True
-    except JSONDecodeError:
+    except (JSONDecodeError, UnicodeDecodeError):
+        damaged = True
+    except (EOFError, pickle.UnpicklingError):
         damaged = True
 
     return damaged
-- 
2.43.0


From e545d44fd52b1ec59292920d1a8ae143166334b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 17/85] fix: dump_dict replaces the arrays of the caller by
 lists

---
 smote_variants/base/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index de39ba4..5f9bbdc 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -245,6 +245,7 @@ def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
         serialization = filename.split(".")[-1]
 
     if serialization == "json":
+        obj = {**obj}
         for key in array_to_list_map:
             obj[key] = obj[key].astype(float).tolist()
         if os.path.exists(filename):
-- 
2.43.0


From 174261dd3d45618152530ebf993e3dbf73045804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 18/85] fix: the pool deadlocks when a worker process cannot be
 started

---
 smote_variants/evaluation/_parallelization.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 8fef4d7..3a756b6 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -130,9 +130,10 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
         kwargs={"job": job, "queue": queue, "queue_lock": queue_lock},
     )
 
-    process.start()
-
-    process_start_lock.release()
+    try:
+        process.start()
+    finally:
+        process_start_lock.release()
 
     if timeout is not None and timeout > 0:
         process.join(timeout)
-- 
2.43.0


From 2ef186a8430296e72fb477b238d41604af5c8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 19/85] fix: multiclass oversampling overshoots the majority
 class and fails on equally large classes

---
 .../multiclassoversampling/_multiclassoversampling.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index cc41a20..8fe5d93 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -5,7 +5,7 @@ import inspect
 
 import numpy as np
 
-from ..base import StatisticsMixin, instantiate_obj
+from ..base import StatisticsMixin, instantiate_obj, safe_divide
 from .._logger import logger
 
 _logger = logger
@@ -28,9 +28,9 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
         float: the proportion
     """
     to_gen = stats[maj_label] - stats[labels[class_idx]]
-    to_gen_to_all = stats[maj_label] - stats[labels[class_idx]]
+    to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
-    return to_gen / to_gen_to_all
+    return safe_divide(to_gen, to_gen_to_all, 0.0)
 
 
 def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
@@ -52,7 +52,7 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
 
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
-    return num_to_generate / num_to_gen_to_all
+    return safe_divide(num_to_generate, num_to_gen_to_all, 0.0)
 
 
 def has_proportion_parameter(oversampler):
-- 
2.43.0


From 0c4c8e059d5c8e368c7e5c013f90d781e3c562e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:30 +0000
Subject: [PATCH 20/85] fix: OversamplingClassifier predicts on untransformed
 features

---
 smote_variants/classifiers/_oversamplingclassifier.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 94b2d4c..1891bca 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -57,7 +57,9 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict(X)
+        return self.classifier_obj.predict(
+            self.oversampler_obj.preprocessing_transform(X)
+        )
 
     def predict_proba(self, X):
         """
@@ -67,7 +69,9 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict_proba(X)
+        return self.classifier_obj.predict_proba(
+            self.oversampler_obj.preprocessing_transform(X)
+        )
 
     def get_params(self, deep=True):
         """
-- 
2.43.0


From fb09ede339e7272b383403426a3f0851f1222a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:08 +0000
Subject: [PATCH 21/85] fix: cached samplings and evaluations are reused after
 the scaler changed

---
 smote_variants/evaluation/_evaluation.py | 4 +++-
 smote_variants/evaluation/_sampling.py   | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index b6058c9..68f4925 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -83,7 +83,9 @@ class EvaluationJob:
         label0 = str(classifier).encode("utf-8")
         label1 = str((oversampling["oversampler"])).encode("utf-8")
 
-        hashcode = str(hashlib.md5(label0 + label1).hexdigest())
+        label2 = str(oversampling.get("scaler")).encode("utf-8")
+
+        hashcode = str(hashlib.md5(label0 + label1 + label2).hexdigest())
 
         damaged = False
         if self.cache_path is not None:
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 7b86d8b..e80e522 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -90,7 +90,9 @@ class SamplingJob(TimeoutJobBase):
         """
         target_filename = None
 
-        label = str((self.oversampler, self.oversampler_params)).encode("utf-8")
+        label = str(
+            (self.oversampler, self.oversampler_params, self.scaler)
+        ).encode("utf-8")
         hashcode = str(hashlib.md5(label).hexdigest())
 
         damaged = False
@@ -151,6 +153,7 @@ class SamplingJob(TimeoutJobBase):
 
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
+            "scaler": str(self.scaler),
             "y_test": folding["y_test"],
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
@@ -245,6 +248,7 @@ class SamplingJob(TimeoutJobBase):
 
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
+            "scaler": str(self.scaler),
             "y_test": folding["y_test"],
             "oversampler": oversampler_obj.get_params(),
         }
-- 
2.43.0


From 4d78bc2c49772d7171b0853813a5a07166acd930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:08 +0000
Subject: [PATCH 22/85] fix: a cached evaluation leaves the logger silenced

---
 smote_variants/evaluation/_functions.py | 28 ++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/smote_variants/evaluation/_functions.py b/smote_variants/evaluation/_functions.py
index d7d095b..d861791 100644
--- a/smote_variants/evaluation/_functions.py
+++ b/smote_variants/evaluation/_functions.py
@@ -91,22 +91,26 @@ def execute_1_os(fold, oversamplers, scaler, cache_path, serialization):
     # os.environ['TF_NUM_INTEROP_THREADS'] = '1'
     # os.environ['TF_NUM_INTRAOP_THREADS'] = '1'
 
+    level = logger.level
     logger.setLevel(logging.CRITICAL)
 
-    results = []
-    for oversampler in oversamplers:
-        job = SamplingJob(
-            fold,
-            oversampler[1],
-            oversampler[2],
-            scaler=scaler,
-            cache_path=cache_path,
-            serialization=serialization,
-        )
+    try:
+        results = []
+        for oversampler in oversamplers:
+            job = SamplingJob(
+                fold,
+                oversampler[1],
+                oversampler[2],
+                scaler=scaler,
+                cache_path=cache_path,
+                serialization=serialization,
+            )
 
-        result = job.do_oversampling()
+            result = job.do_oversampling()
 
-        results.append(result)
+            results.append(result)
+    finally:
+        logger.setLevel(level)
 
     return results
 
-- 
2.43.0


From e700b5da98404bb7d8b845882f6366c67fa26688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:08 +0000
Subject: [PATCH 23/85] fix: p_top20 looks at the first test vectors instead of
 the highest scored ones

---
 smote_variants/base/_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 7c95d70..3762dab 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -217,7 +217,8 @@ def calculate_prob_scores(test_labels, probabilities, min_label=1):
     results = {}
 
     thres = max(int(0.2 * len(test_labels)), 1)
-    results["p_top20"] = float(np.sum(test_labels[:thres] == min_label) / thres)
+    top_labels = test_labels[np.argsort(-probabilities, kind="stable")[:thres]]
+    results["p_top20"] = float(np.sum(top_labels == min_label) / thres)
     results["brier"] = float(np.mean((probabilities - test_labels) ** 2))
     results["log_loss"] = float(log_loss(test_labels, probabilities))
     results["auc"] = float(roc_auc_score(test_labels, probabilities))
-- 
2.43.0


From 4a0b26c2904012f12140491f33a6556498987776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:08 +0000
Subject: [PATCH 24/85] fix: undersampling requires the labels to be 0 and 1
 with 1 the minority

---
 .../_oversampling_driven_undersampling.py         | 15 +++++++++++----
 .../undersampling/_random_undersampling.py        | 15 +++++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/smote_variants/undersampling/_oversampling_driven_undersampling.py b/smote_variants/undersampling/_oversampling_driven_undersampling.py
index babf387..5d094ef 100644
--- a/smote_variants/undersampling/_oversampling_driven_undersampling.py
+++ b/smote_variants/undersampling/_oversampling_driven_undersampling.py
@@ -57,12 +57,14 @@ class OversamplingDrivenUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
 
         X_samp, _ = self.oversampler.sample(X, y)
         X_new = X_samp[X.shape[0]:]
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
+        X_min = X[y == self.min_label]
+        X_maj = X[y == self.maj_label]
 
         dists = X_new - X_maj[:, None]
 
@@ -81,7 +83,12 @@ class OversamplingDrivenUndersampling(UnderSampling):
             X_maj = X_maj[sorting][:n_min]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
 
diff --git a/smote_variants/undersampling/_random_undersampling.py b/smote_variants/undersampling/_random_undersampling.py
index 07ed2d4..6ef5351 100644
--- a/smote_variants/undersampling/_random_undersampling.py
+++ b/smote_variants/undersampling/_random_undersampling.py
@@ -41,13 +41,20 @@ class RandomUndersampling(UnderSampling):
         Returns:
             np.array, np.array: the undersampled feature vectors and class labels
         """
-        n_maj, n_min = np.bincount(y)
+        self.class_label_statistics(y)
+        n_maj = self.class_stats[self.maj_label]
+        n_min = self.class_stats[self.min_label]
         #mask = self.random_state.choice(np.arange(n_maj), n_min, p=np.repeat(1.0/n_maj, n_maj), replace=False)
         mask = self.random_state.choice(np.arange(n_maj), n_min, replace=False)
-        X_maj = X[y == 0][mask]
-        X_min = X[y == 1]
+        X_maj = X[y == self.maj_label][mask]
+        X_min = X[y == self.min_label]
 
         X_res = np.vstack([X_maj, X_min]).copy()  # pylint: disable=invalid-name
-        y_res = np.hstack([np.repeat(0, X_maj.shape[0]), np.repeat(1, X_min.shape[0])])
+        y_res = np.hstack(
+            [
+                np.repeat(self.maj_label, X_maj.shape[0]),
+                np.repeat(self.min_label, X_min.shape[0]),
+            ]
+        )
 
         return X_res, y_res
\ No newline at end of file
-- 
2.43.0


From d14c6dd3317af3ca1e9705649258048d3ea16399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:23 +0000
Subject: [PATCH 25/85] fix: MOT2LD.sample overwrites its n_components
 parameter

---
 smote_variants/oversampling/_mot2ld.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_mot2ld.py b/smote_variants/oversampling/_mot2ld.py
index c9ebd24..b2b21d2 100755
--- a/smote_variants/oversampling/_mot2ld.py
+++ b/smote_variants/oversampling/_mot2ld.py
@@ -463,14 +463,13 @@ class MOT2LD(OverSamplingSimplex):
             "%s: Starting TSNE n: %d d: %d", self.__class__.__name__, len(X), len(X[0])
         )
 
-        if self.n_components > X.shape[1]:
-            self.n_components = min(self.n_components, X.shape[1])
+        n_components = min(self.n_components, X.shape[1])
 
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore")
             # do the stochastic embedding
             X_tsne = TSNE(  # pylint: disable=invalid-name
-                self.n_components,
+                n_components,
                 random_state=self._random_state_init,
                 perplexity=np.min([10, X.shape[0] - 1]),
                 n_iter_without_progress=100,
-- 
2.43.0


From 3713f9a287f0384c8b4abe1f91b2ffac72b8139a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:23 +0000
Subject: [PATCH 26/85] fix: SOI_CJ.sample overwrites the gaussian component
 parameter

---
 smote_variants/oversampling/_soi_cj.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 7cccf90..62b57aa 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -350,17 +350,20 @@ class SOI_CJ(OverSamplingSimplex):
             np.array: the generated samples
         """
 
-        self.gaussian_component = {"sigmas": std}
-
         nnmt = NearestNeighborsWithMetricTensor(
             n_neighbors=len(cluster), n_jobs=self.n_jobs, **nn_params
         )
         nnmt.fit(X[cluster])
         indices = nnmt.kneighbors(X[cluster], return_distance=False)
 
-        samples = self.sample_simplex(
-            X=X[cluster], indices=indices, n_to_sample=n_to_sample
-        )
+        gaussian_component = self.gaussian_component
+        self.gaussian_component = {"sigmas": std}
+        try:
+            samples = self.sample_simplex(
+                X=X[cluster], indices=indices, n_to_sample=n_to_sample
+            )
+        finally:
+            self.gaussian_component = gaussian_component
 
         # indices = self.random_state.choice(np.arange(len(cluster)),
         #                                        n_to_sample)
-- 
2.43.0


From 12e64470cffc2d083a808bd586a928323aa8c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:57 +0000
Subject: [PATCH 27/85] fix: SMOTE_PSOBAT keeps the neighborhood limit of an
 earlier dataset

---
 smote_variants/oversampling/_smote_psobat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_psobat.py b/smote_variants/oversampling/_smote_psobat.py
index 7221c02..6ac1998 100755
--- a/smote_variants/oversampling/_smote_psobat.py
+++ b/smote_variants/oversampling/_smote_psobat.py
@@ -144,7 +144,8 @@ class SMOTE_PSOBAT(OverSampling):
 
         # a reasonable range of proportions
         self.proportion_range = np.array([0.1, 2.0])
-        self.k_range = np.array([1, 10])
+        self.k_max = 10
+        self.k_range = np.array([1, self.k_max])
 
     @classmethod
     def parameter_combinations(cls, raw=False):
@@ -793,7 +794,7 @@ class SMOTE_PSOBAT(OverSampling):
 
         # a reasonable range of nearest neighbors to use with SMOTE
         self.k_range = np.array(
-            [1, np.min([np.sum(y == self.min_label), self.k_range[1]])]
+            [1, np.min([np.sum(y == self.min_label), self.k_max])]
         )
 
         if self.method == "pso":
-- 
2.43.0


From 521c3c923bfd47d4469d71466d5bb4269028951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:12 +0000
Subject: [PATCH 28/85] fix: KernelADASYN returns distorted original samples
 when it reduces the dimensions

---
 smote_variants/oversampling/_kerneladasyn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 227a302..2683261 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -228,7 +228,11 @@ class KernelADASYN(OverSampling):
 
             X_samp, y_samp = kernela.sample(X_trans, y)
 
-            return pca.inverse_transform(X_samp), y_samp
+            # only the generated samples need to be transformed back, the
+            # inverse of the dimensionality reduction distorts the original ones
+            samples = pca.inverse_transform(X_samp[len(X) :])
+
+            return np.vstack([X, samples]), y_samp
 
         samples = self.mcmc(X_min, r_score, covariance, n_to_sample)
 
-- 
2.43.0


From 2dff0f2bae16ee0dfa29838e6b7dab18022df4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 29/85] fix: the cov_min metric takes the class labelled 1 for
 the minority

---
 smote_variants/base/_metrictensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 7f76d57..3d98e65 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -615,7 +615,9 @@ class MetricTensor:
         elif self.metric_learning_method == "cov":
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(np.cov(X.T)))
         elif self.metric_learning_method == "cov_min":
-            cov = np.cov(X[y == 1].T)
+            labels, counts = np.unique(y, return_counts=True)
+            min_label = labels[0] if counts[0] < counts[-1] else labels[-1]
+            cov = np.cov(X[y == min_label].T)
             self.metric_tensor = np.linalg.inv(fix_pd_matrix(cov))
         elif self.metric_learning_method == "MI_weighted":
             mutuali = estimate_mutual_information(X, y)
-- 
2.43.0


From db45fa6d942c3b003ac8989ed58f02ca29c8bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 30/85] fix: ClosestNeighborsInClasses needs 0/1 labels and
 returns a wrong number of labels

---
 smote_variants/base/_metrictensor.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 3d98e65..b80fb86 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -363,19 +363,27 @@ class ClosestNeighborsInClasses:
         Returns:
             np.array, np.array: the border points
         """
-        X_min = X[y == 1]
-        X_maj = X[y == 0]
+        labels, counts = np.unique(y, return_counts=True)
+        maj_label, min_label = labels[0], labels[-1]
+        if counts[0] < counts[-1]:
+            maj_label, min_label = min_label, maj_label
+
+        X_min = X[y == min_label]
+        X_maj = X[y == maj_label]
 
         nearestn = NearestNeighbors(n_neighbors=self.n_neighbors).fit(X)
         _, ind_min = nearestn.kneighbors(X_min)
         _, ind_maj = nearestn.kneighbors(X_maj)
 
-        label_min = np.all((y[ind_min] == 1), axis=1)
-        label_maj = np.all((y[ind_maj] == 0), axis=1)
+        label_min = np.all((y[ind_min] == min_label), axis=1)
+        label_maj = np.all((y[ind_maj] == maj_label), axis=1)
 
         X_final = np.vstack([X_maj[~label_maj], X_min[~label_min]])
         y_final = np.hstack(
-            [np.repeat(0, int(np.sum(label_maj))), np.repeat(1, int(np.sum(label_min)))]
+            [
+                np.repeat(maj_label, int(np.sum(~label_maj))),
+                np.repeat(min_label, int(np.sum(~label_min))),
+            ]
         )
 
         return X_final, y_final
-- 
2.43.0


From 173b87cb058f49174d4991199a5f0839deee62e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 31/85] fix: DSRBF trains its networks on the numeric values of
 the labels

---
 smote_variants/oversampling/_dsrbf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_dsrbf.py b/smote_variants/oversampling/_dsrbf.py
index 2e8e707..00281ab 100755
--- a/smote_variants/oversampling/_dsrbf.py
+++ b/smote_variants/oversampling/_dsrbf.py
@@ -623,7 +623,12 @@ class DSRBF(OverSampling):
         population = [[pop, X, y, np.inf] for pop in population]
         population = sorted(
             [
-                [pop[0], pop[1], pop[2], pop[0].evaluate(pop[1], pop[2])]
+                [
+                    pop[0],
+                    pop[1],
+                    pop[2],
+                    pop[0].evaluate(pop[1], (pop[2] == self.min_label).astype(int)),
+                ]
                 for pop in population
             ],
             key=lambda x: x[3],
@@ -648,7 +653,9 @@ class DSRBF(OverSampling):
             # evaluating non-evaluated elements
             for pop in population:
                 if pop[3] == np.inf:
-                    pop[3] = pop[0].evaluate(pop[1], pop[2])
+                    pop[3] = pop[0].evaluate(
+                        pop[1], (pop[2] == self.min_label).astype(int)
+                    )
 
             # sorting the population by the loss values
             population = sorted((pop for pop in population), key=lambda x: x[3])
@@ -680,7 +687,9 @@ class DSRBF(OverSampling):
         # evaluate unevaluated elements of the population
         for pop in population:
             if pop[3] == np.inf:
-                pop[3] = pop[0].evaluate(pop[1], pop[2])
+                pop[3] = pop[0].evaluate(
+                    pop[1], (pop[2] == self.min_label).astype(int)
+                )
 
         # sorting the population
         population = sorted((pop for pop in population), key=lambda x: x[3])[:n_pop]
-- 
2.43.0


From f224f49f3d34f777fde20ba42cf04d0b7a968dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 32/85] fix: ISOMAP_Hybrid counts the classes by the numeric
 values of the labels

---
 smote_variants/oversampling/_isomap_hybrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 0e23cec..3ff2018 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -163,7 +163,10 @@ class ISOMAP_Hybrid(OverSampling):
         ncr = NeighborhoodCleaningRule(n_jobs=self.n_jobs, nn_params=nn_params)
         X_final, y_final = ncr.remove_noise(X_sm, y_sm)
 
-        if np.sum(y_final) <= 2 or np.sum(y_final == 0) <= 2:
+        if (
+            np.sum(y_final == self.min_label) <= 2
+            or np.sum(y_final == self.maj_label) <= 2
+        ):
             return self.return_copies(
                 X_sm, y_sm, "too many samples removed returning isomapped dataset"
             )
-- 
2.43.0


From 64a5025ef210ff1436140780106d2e0531a71904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 33/85] fix: SL_graph_SMOTE sums the label values for the safe
 levels

---
 smote_variants/oversampling/_sl_graph_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sl_graph_smote.py b/smote_variants/oversampling/_sl_graph_smote.py
index ab6cda3..725f092 100755
--- a/smote_variants/oversampling/_sl_graph_smote.py
+++ b/smote_variants/oversampling/_sl_graph_smote.py
@@ -139,7 +139,7 @@ class SL_graph_SMOTE(OverSampling):
         indices = nnmt.kneighbors(X[y == self.min_label], return_distance=False)
 
         # Computing safe level values
-        safe_level_values = np.sum(y[indices], axis=1)
+        safe_level_values = np.sum(y[indices] == self.min_label, axis=1)
 
         # Computing skewness
         with warnings.catch_warnings():
-- 
2.43.0


From 25f9fc136da9a891c443042af07e50a08dc99b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 34/85] fix: ADG works only with the labels 0 and 1

---
 smote_variants/oversampling/_adg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index cf0125b..1aa2311 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -690,7 +690,13 @@ class ADG(OverSampling):
         # M_plus is not updated as it is not used
         # the partial_results dict acts like a dataclass to reduce the clutter
         # of passing around dozens of arrays
-        partial_results, X, y = evaluate_matrices(X, y, kernel=kernel_function)
+        partial_results, X, y = evaluate_matrices(
+            X,
+            y,
+            kernel=kernel_function,
+            maj_label=self.maj_label,
+            min_label=self.min_label,
+        )
 
         # The computing of N matrix is factored into two steps, computing
         # N_plus and N_minus this is used to improve efficiency
-- 
2.43.0


From 994e68c7db40089117e2a353d4f6f1a2624aec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:46 +0000
Subject: [PATCH 35/85] fix: SMOTE_IPF votes by the numeric values of the
 labels

---
 smote_variants/oversampling/_smote_ipf.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/smote_variants/oversampling/_smote_ipf.py b/smote_variants/oversampling/_smote_ipf.py
index ff092ec..9eb68bb 100755
--- a/smote_variants/oversampling/_smote_ipf.py
+++ b/smote_variants/oversampling/_smote_ipf.py
@@ -179,14 +179,18 @@ class SMOTE_IPF(OverSampling):
 
             # do decision based on one of the voting schemes
             if self.params["voting"] == "majority":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
-                to_remove = np.where(np.not_equal(pred_votes, y_samp))[0]
+                votes = np.array(predictions) == self.min_label
+                pred_votes = np.mean(votes, axis=0) > 0.5
+                to_remove = np.where(
+                    np.not_equal(pred_votes, y_samp == self.min_label)
+                )[0]
             elif self.params["voting"] == "consensus":
-                pred_votes = (np.mean(predictions, axis=0) > 0.5).astype(int)
-                sum_votes = np.sum(predictions, axis=0)
+                votes = np.array(predictions) == self.min_label
+                pred_votes = np.mean(votes, axis=0) > 0.5
+                sum_votes = np.sum(votes, axis=0)
                 to_remove = np.where(
                     np.logical_and(
-                        np.not_equal(pred_votes, y_samp),
+                        np.not_equal(pred_votes, y_samp == self.min_label),
                         np.equal(sum_votes, self.params["n_folds"]),
                     )
                 )[0]
-- 
2.43.0


From 0536b1ba126ac62e92a8d8052f91b201b695e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:17 +0000
Subject: [PATCH 36/85] fix: NDO_sampling may generate one sample more than
 requested

---
 smote_variants/oversampling/_ndo_sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/oversampling/_ndo_sampling.py b/smote_variants/oversampling/_ndo_sampling.py
index 245376b..696713e 100755
--- a/smote_variants/oversampling/_ndo_sampling.py
+++ b/smote_variants/oversampling/_ndo_sampling.py
@@ -228,6 +228,9 @@ class NDO_sampling(OverSampling):
                     / 2.0
                 )
 
+        # the last iteration may have added one sample too many
+        samples = samples[:n_to_sample]
+
         return (
             np.vstack([X, np.vstack(samples)]),
             np.hstack([y, np.repeat(self.min_label, len(samples))]),
-- 
2.43.0


From 6284be652b48f174e34f56764259528d02cd4b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:48 +0000
Subject: [PATCH 37/85] fix: ADASYN and MSYN accept negative proportions

---
 smote_variants/oversampling/_adasyn.py | 1 +
 smote_variants/oversampling/_msyn.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/smote_variants/oversampling/_adasyn.py b/smote_variants/oversampling/_adasyn.py
index f6b3dc4..cd2f95f 100755
--- a/smote_variants/oversampling/_adasyn.py
+++ b/smote_variants/oversampling/_adasyn.py
@@ -87,6 +87,7 @@ class ADASYN(OverSamplingSimplex):
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_greater_or_equal(d_th, "d_th", 0)
         self.check_greater_or_equal(beta, "beta", 0)
+        self.check_greater_or_equal(coalesce(proportion, beta), "proportion", 0)
         self.check_n_jobs(n_jobs, "n_jobs")
 
         self.n_neighbors = n_neighbors
diff --git a/smote_variants/oversampling/_msyn.py b/smote_variants/oversampling/_msyn.py
index 4594806..24a7f8e 100755
--- a/smote_variants/oversampling/_msyn.py
+++ b/smote_variants/oversampling/_msyn.py
@@ -102,6 +102,7 @@ class MSYN(OverSampling):
 
         super().__init__(random_state=random_state)
         self.check_greater_or_equal(pressure, "pressure", 0)
+        self.check_greater_or_equal(coalesce(proportion, pressure), "proportion", 0)
         self.check_greater_or_equal(n_neighbors, "n_neighbors", 1)
         self.check_n_jobs(n_jobs, "n_jobs")
 
-- 
2.43.0


From adeb67d3d6790ab8175a649baf3f61b30b664fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 38/85] fix: four metric-aware oversamplers missing from the
 metric learning query

CURE_SMOTE, LVQ_SMOTE, MCT and RWO_sampling take nn_params and compute
their neighbourhoods with the learned metric tensor, but did not carry
cat_metric_learning, so get_metric_learning_oversamplers omitted them.
---
 smote_variants/oversampling/_cure_smote.py   | 1 +
 smote_variants/oversampling/_lvq_smote.py    | 6 +++++-
 smote_variants/oversampling/_mct.py          | 1 +
 smote_variants/oversampling/_rwo_sampling.py | 5 ++++-
 4 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_cure_smote.py b/smote_variants/oversampling/_cure_smote.py
index 74b8522..52dab94 100755
--- a/smote_variants/oversampling/_cure_smote.py
+++ b/smote_variants/oversampling/_cure_smote.py
@@ -49,6 +49,7 @@ class CURE_SMOTE(OverSamplingSimplex):
     categories = [
         OverSamplingSimplex.cat_extensive,
         OverSamplingSimplex.cat_uses_clustering,
+        OverSamplingSimplex.cat_metric_learning,
     ]
 
     def __init__(
diff --git a/smote_variants/oversampling/_lvq_smote.py b/smote_variants/oversampling/_lvq_smote.py
index 69f3c3a..94439c0 100755
--- a/smote_variants/oversampling/_lvq_smote.py
+++ b/smote_variants/oversampling/_lvq_smote.py
@@ -47,7 +47,11 @@ class LVQ_SMOTE(OverSampling):
             elements to the neighborood of another pair of codebook elements.
     """
 
-    categories = [OverSampling.cat_extensive, OverSampling.cat_application]
+    categories = [
+        OverSampling.cat_extensive,
+        OverSampling.cat_application,
+        OverSampling.cat_metric_learning,
+    ]
 
     def __init__(
         self,
diff --git a/smote_variants/oversampling/_mct.py b/smote_variants/oversampling/_mct.py
index 34b65b6..7e6a903 100755
--- a/smote_variants/oversampling/_mct.py
+++ b/smote_variants/oversampling/_mct.py
@@ -39,6 +39,7 @@ class MCT(OverSamplingSimplex):
     categories = [
         OverSamplingSimplex.cat_extensive,
         OverSamplingSimplex.cat_sample_copy,
+        OverSamplingSimplex.cat_metric_learning,
     ]
 
     def __init__(
diff --git a/smote_variants/oversampling/_rwo_sampling.py b/smote_variants/oversampling/_rwo_sampling.py
index 2d9b0a6..fbbe316 100755
--- a/smote_variants/oversampling/_rwo_sampling.py
+++ b/smote_variants/oversampling/_rwo_sampling.py
@@ -31,7 +31,10 @@ class RWO_sampling(OverSamplingSimplex):
                     }
     """
 
-    categories = [OverSamplingSimplex.cat_extensive]
+    categories = [
+        OverSamplingSimplex.cat_extensive,
+        OverSamplingSimplex.cat_metric_learning,
+    ]
 
     def __init__(
         self,
-- 
2.43.0


From c79e579ae53bc45e3545641d56685fcba32a591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:16 +0000
Subject: [PATCH 39/85] fix: multiclass oversampling loses a sample by floating
 point truncation

The oversamplers generate int(proportion * (n_maj - n_min)) samples; for
about 4% of the class sizes (a/b)*b is slightly below a in floating point
arithmetic and the class ended up one sample short of the majority.
---
 .../multiclassoversampling/_multiclassoversampling.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index 8fe5d93..d1dbffb 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -30,7 +30,8 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
     to_gen = stats[maj_label] - stats[labels[class_idx]]
     to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
-    return safe_divide(to_gen, to_gen_to_all, 0.0)
+    # rounding up, otherwise truncation may lose a sample (int(1/49*49) == 0)
+    return np.nextafter(safe_divide(to_gen, to_gen_to_all, 0.0), np.inf)
 
 
 def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
@@ -52,7 +53,8 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
 
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
-    return safe_divide(num_to_generate, num_to_gen_to_all, 0.0)
+    # rounding up, otherwise truncation may lose a sample (int(1/49*49) == 0)
+    return np.nextafter(safe_divide(num_to_generate, num_to_gen_to_all, 0.0), np.inf)
 
 
 def has_proportion_parameter(oversampler):
-- 
2.43.0


From 68e181186daa810597e1d385bc173f76c46c4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:12 +0000
Subject: [PATCH 40/85] fix: CNNTomekLinks and OneSidedSelection remove
 minority samples

The second step determined the minority and majority labels again from
the output of the first one.  When the condensation (or link removal)
left less majority than minority samples the roles were swapped and
original minority samples were removed.
---
 smote_variants/noise_removal/_cnntomeklinks.py     |  6 +++++-
 smote_variants/noise_removal/_condensednn.py       | 14 ++++++++++++++
 smote_variants/noise_removal/_onesidedselection.py |  6 +++++-
 smote_variants/noise_removal/_tomeklinkremoval.py  | 14 ++++++++++++++
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/smote_variants/noise_removal/_cnntomeklinks.py b/smote_variants/noise_removal/_cnntomeklinks.py
index 8e1f786..99c9b35 100644
--- a/smote_variants/noise_removal/_cnntomeklinks.py
+++ b/smote_variants/noise_removal/_cnntomeklinks.py
@@ -74,4 +74,8 @@ class CNNTomekLinks(NoiseFilter):
         X_cnn, y_cnn = cnn.remove_noise(X, y)  # pylint: disable=invalid-name
         tomek = TomekLinkRemoval(n_jobs=self.n_jobs)
 
-        return tomek.remove_noise(X_cnn, y_cnn)
+        # the majority class of the original dataset is to be cleaned, the
+        # condensation may leave less majority than minority samples
+        tomek.class_label_statistics(y)
+
+        return tomek.remove_links(X_cnn, y_cnn)
diff --git a/smote_variants/noise_removal/_condensednn.py b/smote_variants/noise_removal/_condensednn.py
index 586be45..ca68960 100644
--- a/smote_variants/noise_removal/_condensednn.py
+++ b/smote_variants/noise_removal/_condensednn.py
@@ -67,6 +67,20 @@ class CondensedNearestNeighbors(NoiseFilter):
 
         self.class_label_statistics(y)
 
+        return self.condense(X, y)
+
+    def condense(self, X, y):
+        """
+        Condenses the majority class according to the already determined
+        minority and majority labels
+
+        Args:
+            X (np.array): features
+            y (np.array): target labels
+
+        Returns:
+            np.array, np.array: dataset after noise removal
+        """
         # Initial result set consists of all minority samples and 1 majority
         # sample
 
diff --git a/smote_variants/noise_removal/_onesidedselection.py b/smote_variants/noise_removal/_onesidedselection.py
index 1c0ba60..ba4333f 100644
--- a/smote_variants/noise_removal/_onesidedselection.py
+++ b/smote_variants/noise_removal/_onesidedselection.py
@@ -74,4 +74,8 @@ class OneSidedSelection(NoiseFilter):
         X_tomek, y_tomek = tomek.remove_noise(X, y)  # pylint: disable=invalid-name
         cnn = CondensedNearestNeighbors(n_jobs=self.n_jobs)
 
-        return cnn.remove_noise(X_tomek, y_tomek)
+        # the majority class of the original dataset is to be condensed, the
+        # link removal may leave less majority than minority samples
+        cnn.class_label_statistics(y)
+
+        return cnn.condense(X_tomek, y_tomek)
diff --git a/smote_variants/noise_removal/_tomeklinkremoval.py b/smote_variants/noise_removal/_tomeklinkremoval.py
index 5977d20..50014cf 100644
--- a/smote_variants/noise_removal/_tomeklinkremoval.py
+++ b/smote_variants/noise_removal/_tomeklinkremoval.py
@@ -88,6 +88,20 @@ class TomekLinkRemoval(NoiseFilter):
         _logger.info("%s: Running noise removal.", self.__class__.__name__)
         self.class_label_statistics(y)
 
+        return self.remove_links(X, y)
+
+    def remove_links(self, X, y):
+        """
+        Removes the Tomek links according to the already determined minority
+        and majority labels
+
+        Args:
+            X (np.array): features
+            y (np.array): target labels
+
+        Returns:
+            np.array, np.array: dataset after noise removal
+        """
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
 
-- 
2.43.0


From 79a69600686fd569e0639b1e1ae84ade46db0b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 41/85] fix: mcc overflows the integer range for large test
 sets

---
 smote_variants/base/_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 3762dab..074d8e7 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -170,7 +170,7 @@ def calculate_label_scores(atoms):
     tn_fn = atoms["fn"] + atoms["tn"]
 
     mcc_num = atoms["tp"] * atoms["tn"] - atoms["fp"] * atoms["fn"]
-    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn]))
+    mcc_denom = float(np.prod([tp_fp, tp_fn, tn_fp, tn_fn], dtype=float))
 
     if mcc_denom == 0:
         atoms["mcc"] = None
-- 
2.43.0


From fd9529f2eb8b24f74f888826229b665828b9f213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 42/85] fix: calculate_label_scores adds the scores to the dict
 of the caller

---
 smote_variants/base/_metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/base/_metrics.py b/smote_variants/base/_metrics.py
index 074d8e7..984163e 100644
--- a/smote_variants/base/_metrics.py
+++ b/smote_variants/base/_metrics.py
@@ -143,6 +143,9 @@ def calculate_label_scores(atoms):
     Returns:
         dict: the label scores
     """
+    # the scores are added to a copy, the dict of the caller is left intact
+    atoms = {**atoms}
+
     atoms["p"] = atoms["tp"] + atoms["fn"]
     atoms["n"] = atoms["fp"] + atoms["tn"]
 
-- 
2.43.0


From ed36f4ffd31ed93b5ea26a3f110f8d581d90d027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 43/85] fix: the folds of an earlier folding in the cache are
 evaluated too

---
 smote_variants/evaluation/_folding.py | 38 +++++++++++++++++++--------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index a17ea94..33f9c24 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -3,7 +3,6 @@ This module implements the folding abstraction.
 """
 
 import os
-import glob
 import shutil
 
 import numpy as np
@@ -88,15 +87,34 @@ class Folding:
         Returns:
             list: the list of fold filenames
         """
-        if self.serialization == "json":
-            path = os.path.join(self.folding_dir_path, "fold_*.json")
-        elif self.serialization == "pickle":
-            path = os.path.join(self.folding_dir_path, "fold_*.pickle")
-
-        if len(glob.glob(path)) == 0:
+        # the folds of an earlier folding with more repeats or splits may
+        # still be in the directory
+        files = [
+            self._fold_filename(repeat_idx, fold_idx)
+            for repeat_idx in range(self.validator_params["n_repeats"])
+            for fold_idx in range(self.validator_params["n_splits"])
+        ]
+
+        if not all(os.path.exists(file) for file in files):
             self.cache_foldings()
 
-        return sorted(glob.glob(path))
+        return files
+
+    def _fold_filename(self, repeat_idx, fold_idx):
+        """
+        Get the filename of a fold
+
+        Args:
+            repeat_idx (int): the index of the repeat
+            fold_idx (int): the index of the fold
+
+        Returns:
+            str: the filename
+        """
+        return os.path.join(
+            self.folding_dir_path,
+            f"fold_{repeat_idx:04}_{fold_idx:04}.{self.serialization}",
+        )
 
     def fold(self):
         """
@@ -138,12 +156,10 @@ class Folding:
         for folding in self.fold():
             repeat_idx = folding["fold_descriptor"]["repeat_idx"]
             fold_idx = folding["fold_descriptor"]["fold_idx"]
-            filename = f"fold_{repeat_idx:04}_{fold_idx:04}" f".{self.serialization}"
-            full_name = os.path.join(self.folding_dir_path, filename)
 
             dump_dict(
                 folding,
-                full_name,
+                self._fold_filename(repeat_idx, fold_idx),
                 self.serialization,
                 ["X_train", "X_test", "y_train", "y_test"],
             )
-- 
2.43.0


From 5e7984a9cf206017bb11762aba08958faf0976b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 44/85] fix: cached samplings and evaluations of other folds
 are reused

---
 smote_variants/evaluation/_evaluation.py | 7 ++++++-
 smote_variants/evaluation/_folding.py    | 7 +++++++
 smote_variants/evaluation/_sampling.py   | 7 ++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index 68f4925..1aeb4a2 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -85,7 +85,12 @@ class EvaluationJob:
 
         label2 = str(oversampling.get("scaler")).encode("utf-8")
 
-        hashcode = str(hashlib.md5(label0 + label1 + label2).hexdigest())
+        # the fold and the outcome of the sampling
+        label3 = str(
+            (oversampling["fold_descriptor"], oversampling.get("error"))
+        ).encode("utf-8")
+
+        hashcode = str(hashlib.md5(label0 + label1 + label2 + label3).hexdigest())
 
         damaged = False
         if self.cache_path is not None:
diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 33f9c24..3c3e605 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -3,6 +3,7 @@ This module implements the folding abstraction.
 """
 
 import os
+import hashlib
 import shutil
 
 import numpy as np
@@ -135,9 +136,15 @@ class Folding:
         properties["n_splits"] = n_splits
 
         for idx, (train, test) in enumerate(validator.split(data, target, target)):
+            content = hashlib.md5()
+            for array in [data[train], target[train], data[test], target[test]]:
+                content.update(np.asarray(array, dtype=float).tobytes())
+
             properties["split_idx"] = idx
             properties["repeat_idx"] = idx // n_splits
             properties["fold_idx"] = idx - (idx // n_splits) * n_splits
+            # identifies the content of the fold in the cache
+            properties["content"] = content.hexdigest()
 
             folding = {
                 "X_train": data[train],
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index e80e522..c36c95e 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -91,7 +91,12 @@ class SamplingJob(TimeoutJobBase):
         target_filename = None
 
         label = str(
-            (self.oversampler, self.oversampler_params, self.scaler)
+            (
+                self.oversampler,
+                self.oversampler_params,
+                self.scaler,
+                folding["fold_descriptor"],
+            )
         ).encode("utf-8")
         hashcode = str(hashlib.md5(label).hexdigest())
 
-- 
2.43.0


From 5f18f0096b501e170be9953a35a2a63074b58318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:06 +0000
Subject: [PATCH 45/85] fix: the parameters of a timed out oversampling are
 reported differently

---
 smote_variants/evaluation/_sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index c36c95e..1cfddf9 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -255,7 +255,9 @@ class SamplingJob(TimeoutJobBase):
             "fold_descriptor": folding["fold_descriptor"],
             "scaler": str(self.scaler),
             "y_test": folding["y_test"],
-            "oversampler": oversampler_obj.get_params(),
+            "oversampler": coalesce_dict(
+                oversampler_obj.get_params(), self.oversampler_params
+            ),
         }
 
         oversampling = {
-- 
2.43.0


From 849ce08aee9d1683cf66643a6586216a0d344974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:27 +0000
Subject: [PATCH 46/85] fix: the pool loses or never returns large results

---
 smote_variants/evaluation/_parallelization.py | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 3a756b6..198f3e7 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -2,6 +2,7 @@
 This module implements the process based parallelization with timeout.
 """
 
+import time
 import threading
 import multiprocessing
 from queue import Empty
@@ -15,6 +16,9 @@ __all__ = [
     "execute_job_object"
 ]
 
+# the time (in seconds) between checking the state of a process
+POLLING_INTERVAL = 0.05
+
 
 class TimeoutJobBase:
     """
@@ -135,24 +139,26 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
     finally:
         process_start_lock.release()
 
+    deadline = None
     if timeout is not None and timeout > 0:
-        process.join(timeout)
-    else:
-        process.join()
+        deadline = time.monotonic() + timeout
 
-    # if the process finished normally, the result is written into
-    # the results output argument
-    if not process.is_alive():
-        results[idx] = queue_get_default(queue, job)
+    # the result needs to be read before joining the process: a process
+    # does not terminate until the items it has put into a queue are consumed
+    while deadline is None or time.monotonic() < deadline:
+        try:
+            results[idx] = queue.get(timeout=POLLING_INTERVAL)
+        except Empty:
+            if process.is_alive():
+                continue
 
-        return
+            # the result might have been put between the two checks, without
+            # any result the fallback is used
+            results[idx] = queue_get_default(queue, job)
 
-    # remove anything from the queue to prevent deadlock
-    try:
-        queue_lock.acquire()
-        results[idx] = queue.get(block=False)
-    except Empty:
-        pass
+        process.join(timeout if deadline is not None else None)
+
+        return
 
     # if the process is still running, the process is killed and
     # the timeout function is executed for potential clean-up
-- 
2.43.0


From 4efa5421d839c06d8b38aab2502dc9b253c205f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:01 +0000
Subject: [PATCH 47/85] fix: model selection picks the worst combination by the
 loss-type scores

---
 smote_variants/evaluation/_functions.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/smote_variants/evaluation/_functions.py b/smote_variants/evaluation/_functions.py
index d861791..1ebec29 100644
--- a/smote_variants/evaluation/_functions.py
+++ b/smote_variants/evaluation/_functions.py
@@ -35,6 +35,9 @@ __all__ = [
     "_verbose_logging",
 ]
 
+# the scores with lower values indicating better performance
+LOSSES = ["fpr", "fdr", "fnr", "brier", "log_loss"]
+
 
 def execute_1_job(fold, oversamplers, scaler, classifiers, serialization):
     """
@@ -162,6 +165,22 @@ def do_clean_up(cache_path, clean_up):
             os.remove(file)
 
 
+def _best_value(pdf, score):
+    """
+    Determine the best mean value of a score
+
+    Args:
+        pdf (pd.DataFrame): the results averaged over folds
+        score (str): the score
+
+    Returns:
+        float: the best mean value
+    """
+    values = pdf[score + "_mean"]
+
+    return values.min() if score in LOSSES else values.max()
+
+
 def _pivot_best_scores(pdf):
     """
     Pivot the best parameters for each oversampler and classifier
@@ -177,7 +196,7 @@ def _pivot_best_scores(pdf):
     score_means = {}
     score_stds = {}
     for score in all_scores:
-        tmp = pdf[pdf[score + "_mean"] == pdf[score + "_mean"].max()]
+        tmp = pdf[pdf[score + "_mean"] == _best_value(pdf, score)]
 
         results_dict_classifier[f"{score}_classifier_params"] = pd.Series([None], dtype='str')
         results_dict_classifier[f"{score}_oversampler_params"] = pd.Series([None], dtype='str')
@@ -647,7 +666,7 @@ def model_selection(
         .drop("level_5", axis="columns")
     )
 
-    best_row = pdf[pdf[f"{score}_mean"] == pdf[f"{score}_mean"].max()].iloc[0]
+    best_row = pdf[pdf[f"{score}_mean"] == _best_value(pdf, score)].iloc[0]
 
     oversampler = (
         best_row["oversampler_module"],
-- 
2.43.0


From 7804873e32fb57885aa1e4a84acb40d70cb1e156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:59 +0000
Subject: [PATCH 48/85] fix: the classifier wrapper cannot predict with a
 multiclass oversampler

---
 .../_multiclassoversampling.py                      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index d1dbffb..76be125 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -303,6 +303,19 @@ class MulticlassOversampling(StatisticsMixin):
 
         return self.sample_equalize_1_vs_many(X, y)
 
+    def preprocessing_transform(self, X):
+        """
+        Transforms new data to the space of the sampled data: the multiclass
+        strategies sample in the space of the training data.
+
+        Args:
+            X (np.ndarray): the data to transform
+
+        Returns:
+            np.ndarray: the transformed data
+        """
+        return X
+
     def get_params(self, deep=False):
         """
         Returns:
-- 
2.43.0


From 1c753da3bcbcc1d022fdf1e6950a26faf438a5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:59 +0000
Subject: [PATCH 49/85] fix: the dummy classifier predicts nothing

---
 smote_variants/classifiers/_errorwarning_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/classifiers/_errorwarning_classifier.py b/smote_variants/classifiers/_errorwarning_classifier.py
index a7b6747..3dfd3dd 100644
--- a/smote_variants/classifiers/_errorwarning_classifier.py
+++ b/smote_variants/classifiers/_errorwarning_classifier.py
@@ -64,6 +64,7 @@ class ErrorWarningClassifier:
         Returns:
             np.array: the predicted labels
         """
+        return self.classifier.predict(X)
 
     def predict_proba(self, X):
         """
-- 
2.43.0


From aa4d78d3d9fc9ccf14d93f648d2ffae3bd0c69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 50/85] fix: IPADE_ID returns the scaled data when it cannot
 sample

---
 smote_variants/oversampling/_ipade_id.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_ipade_id.py b/smote_variants/oversampling/_ipade_id.py
index 8fc7b73..e9e1df4 100755
--- a/smote_variants/oversampling/_ipade_id.py
+++ b/smote_variants/oversampling/_ipade_id.py
@@ -531,7 +531,7 @@ class IPADE_ID(OverSampling):
             (np.ndarray, np.array): the extended training set and target labels
         """
         mms = MinMaxScaler()
-        X = mms.fit_transform(X)
+        X_scaled = mms.fit_transform(X)  # pylint: disable=invalid-name
 
         min_indices = np.where(y == self.min_label)[0]
         maj_indices = np.where(y == self.maj_label)[0]
@@ -541,12 +541,12 @@ class IPADE_ID(OverSampling):
         try:
             # Phase 1: Initialization
             AUC, for_validation, GS = self.phase_1(  # pylint: disable=invalid-name
-                TrainingSet(X, y), indices
+                TrainingSet(X_scaled, y), indices
             )
 
             # Phase 2: Addition of new instances
             GS = self.phase_2(  # pylint: disable=invalid-name
-                TR=TrainingSet(X, y),
+                TR=TrainingSet(X_scaled, y),
                 indices=indices,
                 for_validation=for_validation,
                 GS=GS,
-- 
2.43.0


From b7a5ed735f7aef8007bbb9b0439876337cb50352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 51/85] fix: E_SMOTE transforms new data by a missing or an
 earlier feature selection

---
 smote_variants/oversampling/_e_smote.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index b5e5f0a..57d983a 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -257,6 +257,22 @@ class E_SMOTE(OverSampling):
 
         return smote.sample(X[:, self.mask], y)
 
+    def sample(self, X, y):
+        """
+        Sampling interface function.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        # all features are kept unless the algorithm selects some of them
+        self.mask = np.repeat([True], X.shape[1])
+
+        return super().sample(X, y)
+
     def preprocessing_transform(self, X):
         """
         Transform new data by the learnt transformation
-- 
2.43.0


From e7b95bd3f2e1aac5b2872c7d507d502a0d4a2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:43 +0000
Subject: [PATCH 52/85] fix: ISOMAP_Hybrid transforms new data although it
 returned the data as it was

---
 smote_variants/oversampling/_isomap_hybrid.py | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 3ff2018..9b48ce7 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -112,6 +112,7 @@ class ISOMAP_Hybrid(OverSampling):
         self.isomap = Isomap(
             n_neighbors=n_neighbors, n_components=n_components, n_jobs=n_jobs
         )
+        self.transformed = False
 
     @classmethod
     def parameter_combinations(cls, raw=False):
@@ -145,6 +146,7 @@ class ISOMAP_Hybrid(OverSampling):
             if suppress_external_warnings():
                 warnings.simplefilter("ignore")
             X_trans = self.isomap.fit_transform(X, y)  # pylint: disable=invalid-name
+        self.transformed = True
 
         nn_params = {**self.nn_params}
         nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
@@ -173,6 +175,22 @@ class ISOMAP_Hybrid(OverSampling):
 
         return X_final, y_final
 
+    def sample(self, X, y):
+        """
+        Sampling interface function.
+
+        Args:
+            X (np.array): features
+            y (np.array): labels
+
+        Returns:
+            np.array, np.array: the oversampled dataset
+        """
+        # the data is not transformed unless the algorithm is executed
+        self.transformed = False
+
+        return super().sample(X, y)
+
     def preprocessing_transform(self, X):
         """
         Transforms new data by the trained isomap
@@ -183,6 +201,8 @@ class ISOMAP_Hybrid(OverSampling):
         Returns:
             np.array: the transformed data
         """
+        if not self.transformed:
+            return X
         return self.isomap.transform(X)
 
     def get_params(self, deep=False):
-- 
2.43.0


From 98b4c2068606d5a30671f722b8263af7ba6e8e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 53/85] fix: CURE_SMOTE learns the metric of scaled data from
 the unscaled data

---
 smote_variants/oversampling/_cure_smote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_cure_smote.py b/smote_variants/oversampling/_cure_smote.py
index 52dab94..840f002 100755
--- a/smote_variants/oversampling/_cure_smote.py
+++ b/smote_variants/oversampling/_cure_smote.py
@@ -252,7 +252,9 @@ class CURE_SMOTE(OverSamplingSimplex):
         X_min = X_scaled[y == self.min_label]
 
         nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_scaled, y
+        )
 
         clusters = self.do_the_clustering(X_min, nn_params)
 
-- 
2.43.0


From 004cc28fc4d798ff300da3e87dabb112396915ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 54/85] fix: DBSMOTE learns the metric of scaled data from the
 unscaled data

---
 smote_variants/oversampling/_dbsmote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_dbsmote.py b/smote_variants/oversampling/_dbsmote.py
index d8b8da2..08d4757 100755
--- a/smote_variants/oversampling/_dbsmote.py
+++ b/smote_variants/oversampling/_dbsmote.py
@@ -332,7 +332,9 @@ class DBSMOTE(OverSampling):
         clusters = [np.where(labels == i)[0] for i in range(num_labels)]
 
         nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_ss, y
+        )
 
         shortest_paths = self.extract_shortest_paths(X_min, clusters, nn_params)
 
-- 
2.43.0


From b5be611fb18c98c12cdce8d42893b6a5864e820b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 55/85] fix: Gaussian_SMOTE learns the metric of scaled data
 from the unscaled data

---
 smote_variants/oversampling/_gaussian_smote.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_gaussian_smote.py b/smote_variants/oversampling/_gaussian_smote.py
index 31dd4b9..e0c6c33 100755
--- a/smote_variants/oversampling/_gaussian_smote.py
+++ b/smote_variants/oversampling/_gaussian_smote.py
@@ -132,7 +132,9 @@ class Gaussian_SMOTE(OverSamplingSimplex):
         n_neighbors = min([len(X_min), self.n_neighbors + 1])
 
         nn_params = {**self.nn_params}
-        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(nn_params, X, y)
+        nn_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            nn_params, X_ss, y
+        )
 
         nnmt = NearestNeighborsWithMetricTensor(
             n_neighbors=n_neighbors, n_jobs=self.n_jobs, **(nn_params)
-- 
2.43.0


From 41191454bc0c30339c7199aa72d113dca90a2aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 56/85] fix: SUNDO compares normalized data by a metric learnt
 from the data as they were

---
 smote_variants/oversampling/_sundo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sundo.py b/smote_variants/oversampling/_sundo.py
index b60e391..67051a7 100755
--- a/smote_variants/oversampling/_sundo.py
+++ b/smote_variants/oversampling/_sundo.py
@@ -205,7 +205,13 @@ class SUNDO(OverSampling):
         X_min_extended = np.vstack([X_min, samples])  # pylint: disable=invalid-name
 
         # Removing N elements from the majority dataset
-        to_remove = self.determine_removal(X_maj, nn_params, N)
+        # based on the normalized data, thus, the metric is learnt there, too
+        mms = MinMaxScaler().fit(X_maj)
+        removal_params = {**self.nn_params}
+        removal_params["metric_tensor"] = self.metric_tensor_from_nn_params(
+            removal_params, mms.transform(X), y
+        )
+        to_remove = self.determine_removal(X_maj, removal_params, N)
 
         # removing the selected elements
         X_maj_cleaned = np.delete(  # pylint: disable=invalid-name
-- 
2.43.0


From 022a8fe583d04cf646d3450a0de75b5fc7dcedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 57/85] fix: radius_neighbors ignores the radius of the object
 when a metric tensor is given

---
 smote_variants/base/_metrictensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index b80fb86..0912a48 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -833,6 +833,7 @@ class NearestNeighborsWithMetricTensor:
                 X, radius, return_distance, sort_results
             )
 
+        radius = coalesce(radius, self.radius)
         distm = pairwise_distances_mahalanobis(
             X, Y=self.X_fitted, tensor=self.metric_tensor
         )
-- 
2.43.0


From c04be038e1f611de05599800029951a7c9702f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:55 +0000
Subject: [PATCH 58/85] fix: Borderline_SMOTE never uses the nearest neighbour
 (the base point is left out twice)

---
 smote_variants/oversampling/_borderline_smote.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smote_variants/oversampling/_borderline_smote.py b/smote_variants/oversampling/_borderline_smote.py
index 772049c..923e10d 100755
--- a/smote_variants/oversampling/_borderline_smote.py
+++ b/smote_variants/oversampling/_borderline_smote.py
@@ -210,8 +210,8 @@ class Borderline_SMOTE1(OverSamplingSimplex):
         nnmt.fit(X_min)
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X_min
-        indices = indices[:, 1:]
+        # X_danger items are also present in X_min: the first column of the
+        # indices is the base point itself, as the simplex sampling expects
 
         samples = self.sample_simplex(
             X=X_danger, indices=indices, n_to_sample=n_to_sample, X_vertices=X_min
@@ -411,8 +411,8 @@ class Borderline_SMOTE2(OverSamplingSimplex):
         nnmt.fit(X)
         indices = nnmt.kneighbors(X_danger, return_distance=False)
 
-        # X_danger items are also present in X
-        indices = indices[:, 1:]
+        # X_danger items are also present in X: the first column of the
+        # indices is the base point itself, as the simplex sampling expects
 
         vertex_weights = np.repeat(1.0, len(X))
         vertex_weights[y == self.maj_label] = 0.5
-- 
2.43.0


From 78650b81ba69e5453b801c8debf7a25055a89f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:55 +0000
Subject: [PATCH 59/85] fix: ISMOTE never uses the nearest neighbour (the base
 point is left out twice)

---
 smote_variants/oversampling/_ismote.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/smote_variants/oversampling/_ismote.py b/smote_variants/oversampling/_ismote.py
index 0b63fbd..4102dbe 100755
--- a/smote_variants/oversampling/_ismote.py
+++ b/smote_variants/oversampling/_ismote.py
@@ -160,9 +160,6 @@ class ISMOTE(OverSamplingSimplex):
         vertex_weights = np.repeat(1.0 - self.minority_weight, X.shape[0])
         vertex_weights[y == self.min_label] = self.minority_weight
 
-        # removing the minority samples from their own neighborhoods
-        ind = ind[:, 1:]
-
         samples = self.sample_simplex(
             X=X_min,
             indices=ind,
-- 
2.43.0


From b6a734239e53a152e17dc52483e04bbf037d550d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:55 +0000
Subject: [PATCH 60/85] fix: VIS_RST never uses the nearest neighbour (the base
 point is left out twice)

---
 smote_variants/oversampling/_vis_rst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_vis_rst.py b/smote_variants/oversampling/_vis_rst.py
index d91071e..73add98 100755
--- a/smote_variants/oversampling/_vis_rst.py
+++ b/smote_variants/oversampling/_vis_rst.py
@@ -242,7 +242,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_not_danger],
-                indices=ind_not_noise[base_not_danger, 1:],
+                indices=ind_not_noise[base_not_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
@@ -289,7 +289,7 @@ class VIS_RST(OverSamplingSimplex):
 
             samples_tmp = self.sample_simplex(
                 X=X_min_not_noise[base_danger],
-                indices=ind_not_noise[base_danger, 1:],
+                indices=ind_not_noise[base_danger],
                 n_to_sample=n_missing,
                 X_vertices=X_min,
             )
-- 
2.43.0


From 1d19d17ffeab907a671e2add17b6e2418e7c91a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 61/85] fix: SN_SMOTE never finds a second centroid neighbour
 (the updates go to copies)

---
 smote_variants/oversampling/_sn_smote.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/smote_variants/oversampling/_sn_smote.py b/smote_variants/oversampling/_sn_smote.py
index a195fbe..d797a93 100755
--- a/smote_variants/oversampling/_sn_smote.py
+++ b/smote_variants/oversampling/_sn_smote.py
@@ -143,12 +143,11 @@ class SN_SMOTE(OverSamplingSimplex):
             )
 
             improved = new_cent_dist < cent_dist[mask]
-            centroids[mask][improved] = (
-                centroids[mask][improved] + X_min[ind[mask, jdx][improved]]
-            )
-            ncn[mask][improved, n_cents[mask][improved]] = ind[mask][improved, jdx]
-            n_cents[mask][improved] = n_cents[mask][improved] + 1
-            cent_dist[mask][improved] = new_cent_dist[improved]
+            rows = np.where(mask)[0][improved]
+            centroids[rows] = centroids[rows] + X_min[ind[rows, jdx]]
+            ncn[rows, n_cents[rows]] = ind[rows, jdx]
+            n_cents[rows] = n_cents[rows] + 1
+            cent_dist[rows] = new_cent_dist[improved]
 
             mask = n_cents < self.n_neighbors
 
-- 
2.43.0


From 7661f39c7f2c2608521f41e33ec6ab42c28eb4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 62/85] fix: SN_SMOTE looks for a second centroid neighbour
 when one is asked for

---
 smote_variants/oversampling/_sn_smote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/smote_variants/oversampling/_sn_smote.py b/smote_variants/oversampling/_sn_smote.py
index d797a93..104f1bd 100755
--- a/smote_variants/oversampling/_sn_smote.py
+++ b/smote_variants/oversampling/_sn_smote.py
@@ -132,9 +132,9 @@ class SN_SMOTE(OverSamplingSimplex):
         centroids = X_min[ncn[:, 0]]
         cent_dist = distances_mahalanobis(X=X_min, Y=centroids, tensor=metric_tensor)
 
-        mask = np.repeat(True, X_min.shape[0])
+        mask = n_cents < self.n_neighbors
         jdx = 2
-        while np.any(mask):
+        while jdx < n_neighbors and np.any(mask):
             centroids_tmp = (
                 (centroids[mask] + X_min[ind[mask, jdx]]).T / (n_cents[mask] + 1)
             ).T
@@ -152,8 +152,6 @@ class SN_SMOTE(OverSamplingSimplex):
             mask = n_cents < self.n_neighbors
 
             jdx = jdx + 1
-            if jdx == n_neighbors:
-                break
 
         return ncn, n_cents
 
-- 
2.43.0


From 05fee5c2a52bb6d5e4a6dcd458154ddc16f929e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 63/85] fix: NRAS uses the samples identified as noise as
 vertices (their weights are set in a copy)

---
 smote_variants/oversampling/_nras.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_nras.py b/smote_variants/oversampling/_nras.py
index 2821f85..7f06010 100755
--- a/smote_variants/oversampling/_nras.py
+++ b/smote_variants/oversampling/_nras.py
@@ -178,7 +178,7 @@ class NRAS(OverSamplingSimplex):
         base_weights = np.repeat(1.0, len(X_min))
         base_weights[to_remove] = 0.0
         vertex_weights = np.repeat(1.0, len(X_trans))
-        vertex_weights[y == self.min_label][to_remove] = 0.0
+        vertex_weights[np.where(y == self.min_label)[0][to_remove]] = 0.0
 
         samples = self.sample_simplex(
             X=X_min,
-- 
2.43.0


From 18a3ac37f8dee932d116815d792cd601b2030928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:17 +0000
Subject: [PATCH 64/85] fix: SMOTE_PSOBAT never updates the pulse and the
 loudness (the updates go to copies)

---
 smote_variants/oversampling/_smote_psobat.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/smote_variants/oversampling/_smote_psobat.py b/smote_variants/oversampling/_smote_psobat.py
index 6ac1998..bdf80d3 100755
--- a/smote_variants/oversampling/_smote_psobat.py
+++ b/smote_variants/oversampling/_smote_psobat.py
@@ -620,12 +620,11 @@ class SMOTE_PSOBAT(OverSampling):
         """
         random = self.random_state.random_sample(self.params["n_pop"])
         mask = random[improved_local] < pulse_loudness[improved_local, 1]
-        pulse_loudness[improved_local, 2][mask] = (
-            pulse_loudness[improved_local, 2][mask] * self.params["alpha"]
+        updated = np.where(improved_local)[0][mask]
+        pulse_loudness[updated, 2] = pulse_loudness[updated, 2] * self.params["alpha"]
+        pulse_loudness[updated, 1] = pulse_loudness[updated, 1] * (
+            1 - np.exp(-self.params["gamma"] * iteration)
         )
-        pulse_loudness[improved_local, 1][mask] = pulse_loudness[improved_local, 1][
-            mask
-        ] * (1 - np.exp(-self.params["gamma"] * iteration))
 
         return pulse_loudness
 
-- 
2.43.0


From 8f72c309213f038cb66c9a058dfdab1a85122a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 65/85] fix: SUNDO removes both points of the closest majority
 pairs (the pairs are sorted apart)

---
 smote_variants/oversampling/_sundo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sundo.py b/smote_variants/oversampling/_sundo.py
index 67051a7..4b6874f 100755
--- a/smote_variants/oversampling/_sundo.py
+++ b/smote_variants/oversampling/_sundo.py
@@ -167,7 +167,7 @@ class SUNDO(OverSampling):
         pairs_to_break = np.vstack(pairs_to_break)
 
         # sorting the pairs, otherwise both points would be removed
-        pairs_to_break.sort(axis=1)
+        pairs_to_break.sort(axis=0)
 
         # uniqueing the coordinates - the final number might be less than N
         to_remove = np.unique(pairs_to_break[0])
-- 
2.43.0


From a9be692700eb68abdd87f76196c8a284ebbefb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 66/85] fix: GASMOTE's crossover leaves the second parent as it
 is (it exchanges with the already changed first)

---
 smote_variants/oversampling/_gasmote.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_gasmote.py b/smote_variants/oversampling/_gasmote.py
index 50f5cb5..9f1c3a0 100755
--- a/smote_variants/oversampling/_gasmote.py
+++ b/smote_variants/oversampling/_gasmote.py
@@ -237,8 +237,10 @@ class GASMOTE(OverSamplingSimplex):
         """
         for _ in range(self.ga_params["popl3"]):
             kdx = self.random_state.randint(len(conf_a))
-            conf_a = np.hstack([conf_a[:kdx], conf_b[kdx:]])
-            conf_b = np.hstack([conf_b[:kdx], conf_a[kdx:]])
+            conf_a, conf_b = (
+                np.hstack([conf_a[:kdx], conf_b[kdx:]]),
+                np.hstack([conf_b[:kdx], conf_a[kdx:]]),
+            )
         return conf_a, conf_b
 
     def mutation(self, conf, ge_):
-- 
2.43.0


From 612d691272481638cb2042c20518217170e4a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 67/85] fix: CE_SMOTE matches only the last cluster (a stale
 loop variable instead of the assigned one)

---
 smote_variants/oversampling/_ce_smote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_ce_smote.py b/smote_variants/oversampling/_ce_smote.py
index c41b271..637203d 100755
--- a/smote_variants/oversampling/_ce_smote.py
+++ b/smote_variants/oversampling/_ce_smote.py
@@ -184,12 +184,12 @@ class CE_SMOTE(OverSamplingSimplex):
                         cost_matrix[jdx, kdx] = np.sum(mask_jk)
 
                 # solving the assignment problem
-                row_ind, _ = soptimize.linear_sum_assignment(-cost_matrix)
+                row_ind, col_ind = soptimize.linear_sum_assignment(-cost_matrix)
 
                 # doing the relabeling
                 relabeling = labeling.copy()
 
-                for jdx in range(len(row_ind)):
+                for jdx, kdx in zip(row_ind, col_ind):
                     relabeling[labeling == kdx] = jdx
 
                 labels[idx] = relabeling
-- 
2.43.0


From ecd51b9ce35d8ed83ff9d820df18356b33c51c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 68/85] fix: CCR takes the distance of the farthest majority
 sample for the one before the first

---
 smote_variants/oversampling/_ccr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_ccr.py b/smote_variants/oversampling/_ccr.py
index 7234194..b374fbc 100755
--- a/smote_variants/oversampling/_ccr.py
+++ b/smote_variants/oversampling/_ccr.py
@@ -213,7 +213,7 @@ class CCR(OverSampling):
             radius += radius_change
             remaining_energy -= radius_change * (current_majority + 1.0)
 
-            last_distance = distances[idx, sorted_distances[current_majority - 1]]
+            last_distance = distances[idx, sorted_distances[current_majority]]
 
         # if current_majority == len(majority) - 1 then adjust
         multiplier_flag = int(current_majority == (len(majority) - 1))
-- 
2.43.0


From cd06679e0522e856df8be69faecddbbc6c462a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 69/85] fix: TRIM_SMOTE never counts the minority samples on
 the right (a list is compared to the label)

---
 smote_variants/oversampling/_trim_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_trim_smote.py b/smote_variants/oversampling/_trim_smote.py
index 79303b5..3105766 100755
--- a/smote_variants/oversampling/_trim_smote.py
+++ b/smote_variants/oversampling/_trim_smote.py
@@ -167,7 +167,7 @@ class TRIM_SMOTE(OverSamplingSimplex):
             sorted_X_y = sorted(  # pylint: disable=invalid-name
                 zip(X[:, idx], y), key=lambda pair: pair[0]
             )
-            sorted_y = [yy for _, yy in sorted_X_y]
+            sorted_y = np.array([yy for _, yy in sorted_X_y])
 
             # number of minority samples on the left
             left_min = 0
-- 
2.43.0


From 3a8f0e4be0353e829a1e3cbdd4df43334e6e1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 70/85] fix: TRIM_SMOTE looks for the class border on the wrong
 side of the split (and at the last sample for the first)

---
 smote_variants/oversampling/_trim_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_trim_smote.py b/smote_variants/oversampling/_trim_smote.py
index 3105766..38c547d 100755
--- a/smote_variants/oversampling/_trim_smote.py
+++ b/smote_variants/oversampling/_trim_smote.py
@@ -186,7 +186,7 @@ class TRIM_SMOTE(OverSamplingSimplex):
                     split_on_border is False
                     or (
                         split_on_border is True
-                        and not sorted_y[jdx - 1] == sorted_y[jdx]
+                        and not sorted_y[jdx] == sorted_y[jdx + 1]
                     )
                 ) and sorted_X_y[jdx][0] != sorted_X_y[jdx + 1][0]:
                     # compute trim value of the left
-- 
2.43.0


From d20e60d977f9d299fdcb67dcf975c48c1497fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:59 +0000
Subject: [PATCH 71/85] fix: IPADE_ID drops the extended trial set and
 optimizes the old one

---
 smote_variants/oversampling/_ipade_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_ipade_id.py b/smote_variants/oversampling/_ipade_id.py
index e9e1df4..3c1e8c7 100755
--- a/smote_variants/oversampling/_ipade_id.py
+++ b/smote_variants/oversampling/_ipade_id.py
@@ -482,7 +482,7 @@ class IPADE_ID(OverSampling):
 
                 # doing optimization
                 GS_trial = self.DE_optimization(  # pylint: disable=invalid-name
-                    GS=GS,
+                    GS=GS_trial,
                     TR=TR,
                     indices=indices,
                     for_validation=for_validation_trial,
-- 
2.43.0


From 6044e5b83c7c238766f5ee7fcb2a4625ef07844f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:20 +0000
Subject: [PATCH 72/85] fix: SOI_CJ writes the merged clusters to the wrong
 positions (counted in the rest of the list)

---
 smote_variants/oversampling/_soi_cj.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 62b57aa..cae6147 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -238,7 +238,9 @@ class SOI_CJ(OverSamplingSimplex):
         while is_intersection:
             is_intersection = False
             for idx, cluster_idx in enumerate(clusters):
-                for jdx, cluster_jdx in enumerate(clusters[(idx + 1) :]):
+                for jdx, cluster_jdx in enumerate(
+                    clusters[(idx + 1) :], idx + 1
+                ):
                     # computing intersection
                     intersection = cluster_idx.intersection(cluster_jdx)
                     if len(intersection) > 0:
-- 
2.43.0


From aa55a4ebb25d1c27637e21acd13ea11336cb1fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:43 +0000
Subject: [PATCH 73/85] fix: SMOTE_PSOBAT forgets the local improvements when
 it decides to stop, and inverts the flag of the bats

---
 smote_variants/oversampling/_smote_psobat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/smote_variants/oversampling/_smote_psobat.py b/smote_variants/oversampling/_smote_psobat.py
index bdf80d3..65f111d 100755
--- a/smote_variants/oversampling/_smote_psobat.py
+++ b/smote_variants/oversampling/_smote_psobat.py
@@ -460,14 +460,14 @@ class SMOTE_PSOBAT(OverSampling):
                 ]
             )
 
-            (local_scores, local_best, changed) = self.pso_update_local_scores(
+            (local_scores, local_best, local_same) = self.pso_update_local_scores(
                 scores, particles, local_scores, local_best
             )
-            (global_scores, global_best, changed) = self.pso_update_global_scores(
+            (global_scores, global_best, global_same) = self.pso_update_global_scores(
                 scores, particles, global_scores, global_best
             )
 
-            not_changed = not_changed * changed
+            not_changed = not_changed * (local_same and global_same)
 
             velocities = self.pso_update_velocities(
                 particles, velocities, local_best, global_best
@@ -754,7 +754,7 @@ class SMOTE_PSOBAT(OverSampling):
                 local_best,
                 local_scores,
                 pulse_loudness,
-                changed,
+                local_changed,
             ) = self.bat_update_local_scores(
                 bats=bats,
                 scores=scores,
@@ -764,7 +764,7 @@ class SMOTE_PSOBAT(OverSampling):
                 iteration=iteration,
             )
 
-            global_best, global_scores, changed = self.bat_update_global_scores(
+            global_best, global_scores, global_changed = self.bat_update_global_scores(
                 bats=bats,
                 scores=scores,
                 global_best=global_best,
@@ -772,7 +772,7 @@ class SMOTE_PSOBAT(OverSampling):
                 pulse_loudness=pulse_loudness,
             )
 
-            not_changed = not_changed * changed
+            not_changed = not_changed * (not (local_changed or global_changed))
 
         return global_best
 
-- 
2.43.0


From 92acda3f3a15a18203a4ca43d30e6b8c6f444f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:42 +0000
Subject: [PATCH 74/85] fix: the ITML_mi metric learning trains NCA, and its
 tensor is not symmetric (distances become nan)

---
 smote_variants/base/_metrictensor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 0912a48..c6395f1 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -634,10 +634,11 @@ class MetricTensor:
             self.metric_tensor = np.eye(len(X_mod[0]))
         elif self.metric_learning_method == "ITML_mi":
             self.metric_tensor = self._train_metric_learning(
-                X_mod, y_mod, self.metric_learning_method, random_state=5
+                X_mod, y_mod, "ITML", random_state=5
             )
-            mutuali = estimate_mutual_information(X, y)
-            self.metric_tensor = np.matmul(self.metric_tensor, np.diag(mutuali))
+            # weighting the features, keeping the tensor symmetric
+            weights = np.diag(np.sqrt(estimate_mutual_information(X, y)))
+            self.metric_tensor = weights @ self.metric_tensor @ weights
         elif self.metric_learning_method == "NCA":
             self.metric_tensor = NCA().fit(X_mod, y_mod).get_mahalanobis_matrix()
         elif self.metric_learning_method == "gmean":
-- 
2.43.0


From 731487e6bc23430052980e99396fa3b7318edf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:42 +0000
Subject: [PATCH 75/85] fix: the gmean metric learning trains NCA twice instead
 of ITML with different random priors

---
 smote_variants/base/_metrictensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index c6395f1..d2481ed 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -646,8 +646,8 @@ class MetricTensor:
                 self._train_metric_learning(
                     X_mod,
                     y_mod,
-                    self.metric_learning_method,
-                    random_state=5,
+                    "ITML",
+                    random_state=5 + i,
                     prior="random",
                 )
                 for i in range(2)
-- 
2.43.0


From 92333d2715ea33842dc2e358be910fa902d30f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:38 +0000
Subject: [PATCH 76/85] fix: MI_weighted and ITML_mi learn an undefined metric
 (nan) when no feature is informative

---
 smote_variants/base/_metrictensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index d2481ed..4a8c9bf 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -475,6 +475,9 @@ def estimate_mutual_information(X, y, normalize=True, n_repeats=10, mi_params=No
     mutuali = np.mean(np.array(mutuali), axis=0)
 
     if normalize:
+        if not np.any(mutuali > 0):
+            # no feature is informative, the scores are equal
+            return np.ones(len(mutuali))
         mutuali = mutuali / np.mean(mutuali)
 
     return mutuali
-- 
2.43.0


From 12f368e251bac3b6b8c16072c2e711f2d7d3491a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 77/85] fix: G_SMOTE takes a row of the eigenvector matrix for
 the principal direction

---
 smote_variants/oversampling/_g_smote.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_g_smote.py b/smote_variants/oversampling/_g_smote.py
index 49b51e9..3c6ae28 100755
--- a/smote_variants/oversampling/_g_smote.py
+++ b/smote_variants/oversampling/_g_smote.py
@@ -169,7 +169,7 @@ class G_SMOTE(OverSamplingSimplex):
             # finding H_l by linear decomposition
             cov = np.cov(X_min, rowvar=False)
             eigw, eigv = np.linalg.eig(cov)
-            H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
+            H = eigv[:, np.argmax(eigw)]  # pylint: disable=invalid-name
         else:
             # building a non-linear kernel matrix and finding H_n by its
             # decomposition
@@ -182,7 +182,7 @@ class G_SMOTE(OverSamplingSimplex):
             kernel_matrix = kernel_matrix / (2.0 * self.sigma**2)
             kernel_matrix = np.exp(kernel_matrix)
             eigw, eigv = np.linalg.eig(kernel_matrix)
-            H = eigv[np.argmax(eigw)]  # pylint: disable=invalid-name
+            H = eigv[:, np.argmax(eigw)]  # pylint: disable=invalid-name
 
         return H
 
-- 
2.43.0


From e04a2a90974fd7998778ee7e9e9fd8bf7c1e8027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 78/85] fix: V_SYNTH reads the labels of the wrong samples once
 vectors too close are filtered out

---
 smote_variants/oversampling/_v_synth.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 3b751cd..cba4a56 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -254,9 +254,12 @@ class V_SYNTH(OverSampling):
                 X, y, "Voronoi tessellation in 1D is not feasible"
             )
 
-        X_pca, y_pca = self.filter_vectors_too_close(  # pylint: disable=invalid-name
-            X_pca, y_pca
+        # the second array tells which of the vectors are kept
+        X_pca, kept = self.filter_vectors_too_close(  # pylint: disable=invalid-name
+            X_pca, np.arange(len(y_pca))
         )
+        y_pca = y_pca[kept]
+        n_data = np.sum(kept < len(y))
 
         # doing the Voronoi tessellation
         voronoi = sspatial.Voronoi(X_pca)
@@ -265,7 +268,11 @@ class V_SYNTH(OverSampling):
         # generating an edge between two cells of different class labels
         candidate_face_generators = []
         for idx, ridge in enumerate(voronoi.ridge_points):
-            if ridge[0] < len(y) and ridge[1] < len(y) and y[ridge[0]] != y[ridge[1]]:
+            if (
+                ridge[0] < n_data
+                and ridge[1] < n_data
+                and y_pca[ridge[0]] != y_pca[ridge[1]]
+            ):
                 candidate_face_generators.append(idx)
 
         # seems like this never happens
-- 
2.43.0


From d5318c845775a7b21b1b46f3c66e5214cff86fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 79/85] fix: SMMO takes the predictions of the ensemble for 0
 and 1 whatever the labels are

---
 smote_variants/oversampling/_smmo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/smote_variants/oversampling/_smmo.py b/smote_variants/oversampling/_smmo.py
index 1815db8..ec08ebd 100755
--- a/smote_variants/oversampling/_smmo.py
+++ b/smote_variants/oversampling/_smmo.py
@@ -189,11 +189,11 @@ class SMMO(OverSamplingSimplex):
             for ens in self.ensemble_objs:
                 predictions.append(ens.fit(X, y).predict(X))
 
-        # constructing ensemble prediction
-        pred = np.where(np.mean(np.vstack(predictions), axis=0) > 0.5, 1, 0)
+        # the share of the ensemble predicting the minority class
+        votes = np.mean(np.vstack(predictions) == self.min_label, axis=0)
 
         # create mask of minority samples to sample
-        mask_to_sample = np.where(np.logical_and(pred != y, y == self.min_label))[0]
+        mask_to_sample = np.where(np.logical_and(votes <= 0.5, y == self.min_label))[0]
         if len(mask_to_sample) < 2:
             return self.return_copies(
                 X, y, "Not enough minority samples " f"selected {len(mask_to_sample)}"
-- 
2.43.0


From 43d7f9b448a6349dabcf957c7d57b78fc0be718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 80/85] fix: NEATER labels the samples it generates 0 and 1
 whatever the labels are

---
 smote_variants/oversampling/_neater.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_neater.py b/smote_variants/oversampling/_neater.py
index 29ff7c5..539b270 100755
--- a/smote_variants/oversampling/_neater.py
+++ b/smote_variants/oversampling/_neater.py
@@ -395,7 +395,8 @@ class NEATER(OverSampling):
             )
 
         # determining final labels
-        y_all[len(X) :] = np.argmax(prob[len(X) :], axis=1)
+        labels = np.array([self.maj_label, self.min_label])
+        y_all[len(X) :] = labels[np.argmax(prob[len(X) :], axis=1)]
 
         return X_all, y_all
 
-- 
2.43.0


From 0dbdfef3562e2e19db7784f372a47c1ad92c21bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 81/85] fix: SSO fits its network to the values of the class
 labels

---
 smote_variants/oversampling/_sso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_sso.py b/smote_variants/oversampling/_sso.py
index f084eda..a2790a4 100755
--- a/smote_variants/oversampling/_sso.py
+++ b/smote_variants/oversampling/_sso.py
@@ -291,7 +291,7 @@ class SSO(OverSampling):
 
         # applying linear regression to find the best weights
         linreg = LinearRegression(n_jobs=self.n_jobs)
-        linreg.fit(phi, y)
+        linreg.fit(phi, (y == self.min_label).astype(int))
         f = linreg.predict(
             phi[np.where(y == self.min_label)[0]]
         )  # pylint: disable=invalid-name
-- 
2.43.0


From c7b1b25125034cc30e0cbf98c8d2c1603fe43522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 82/85] fix: SYMPROD takes the neighborhoods from the flattened
 neighbor matrix

---
 smote_variants/oversampling/_symprod.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/smote_variants/oversampling/_symprod.py b/smote_variants/oversampling/_symprod.py
index 633894b..20c7fa4 100644
--- a/smote_variants/oversampling/_symprod.py
+++ b/smote_variants/oversampling/_symprod.py
@@ -327,14 +327,14 @@ class SYMPROD(OverSampling):
                 "Not enough samples for " f"m_neighbors {self.params['m_neighbors']}"
             )
 
-    def select_neighborhoods(self, X_min, nn_params, n_to_sample):
+    def select_neighborhoods(self, X_min, nn_params, min_reference):
         """
         Select the neighborhoods used for sampling.
 
         Args:
             X_min (np.array): the minority samples
             nn_params (dict): the nearest neighbor parameters
-            n_to_sample (int): the number of samples to generate
+            min_reference (np.array): the indices of the reference samples
 
         Returns:
             np.array: the selected neighbors
@@ -355,9 +355,9 @@ class SYMPROD(OverSampling):
         )
 
         rand_ind = neighborhoods[
-            self.random_state.choice(len(neighborhoods), n_to_sample)
+            self.random_state.choice(len(neighborhoods), len(min_reference))
         ]
-        nn_selected = np.take(i_min_min, rand_ind)
+        nn_selected = i_min_min[min_reference[:, None], rand_ind]
 
         return nn_selected
 
@@ -381,7 +381,7 @@ class SYMPROD(OverSampling):
             len(prob_dist), n_to_sample, p=prob_dist, replace=True
         )
 
-        nn_selected = self.select_neighborhoods(X_min, nn_params, n_to_sample)
+        nn_selected = self.select_neighborhoods(X_min, nn_params, min_reference)
 
         synthetic_points = np.zeros(shape=(n_to_sample, X_min[0].shape[0]))
 
-- 
2.43.0


From eb4eb970b3319bf5ba26b9fda9db2aba08f3952b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 83/85] fix: SDSMOTE counts the queries in place of the
 neighbors, its density is always uniform

---
 smote_variants/oversampling/_sdsmote.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/smote_variants/oversampling/_sdsmote.py b/smote_variants/oversampling/_sdsmote.py
index 97c68d0..ccfd3e5 100755
--- a/smote_variants/oversampling/_sdsmote.py
+++ b/smote_variants/oversampling/_sdsmote.py
@@ -148,18 +148,8 @@ class SDSMOTE(OverSamplingSimplex):
         S = np.sum(S_i)  # pylint: disable=invalid-name
         S_ave = S / (len(X_min) * len(X_maj))  # pylint: disable=invalid-name
 
-        k = np.array(
-            [
-                len(
-                    nnmt.radius_neighbors(
-                        X_min[i].reshape(1, -1),  # pylint: disable=invalid-name
-                        S_ave,
-                        return_distance=False,
-                    )
-                )
-                for i in range(len(X_min))
-            ]
-        )
+        neighborhoods = nnmt.radius_neighbors(X_min, S_ave, return_distance=False)
+        k = np.array([len(neighborhood) for neighborhood in neighborhoods])
 
         density = k / np.sum(k)
 
-- 
2.43.0


From a88a3fc38a0b3ee212e33f9889b5653602c71e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:53 +0000
Subject: [PATCH 84/85] fix: the clones of the neurons of DSRBF lose the
 weights and the mask

---
 smote_variants/oversampling/_dsrbf.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/smote_variants/oversampling/_dsrbf.py b/smote_variants/oversampling/_dsrbf.py
index 00281ab..3f85653 100755
--- a/smote_variants/oversampling/_dsrbf.py
+++ b/smote_variants/oversampling/_dsrbf.py
@@ -59,9 +59,8 @@ class RBFNeuron(RandomStateMixin):
         self.center = center
 
         self.beta = coalesce(beta, (self.random_state.random_sample() - 0.5) * o_b)
-        self.init_conn_mask = coalesce(mask, init_conn_mask)
+        self.mask = coalesce(mask, init_conn_mask)
         self.input_weights = coalesce(input_weights, init_conn_weights)
-        self.mask = init_conn_mask
         self.radius = coalesce(radius, self.random_state.random_sample())
 
         self.params = {
@@ -71,8 +70,6 @@ class RBFNeuron(RandomStateMixin):
             "init_conn_weights": init_conn_weights,
             "ranges": ranges,
             "range_mins": range_mins,
-            "beta": beta,
-            "input_weights": input_weights,
         }
 
     def clone(self):
@@ -86,7 +83,9 @@ class RBFNeuron(RandomStateMixin):
             **(self.params),
             center=self.center,
             random_state=self._random_state_init,
+            beta=self.beta,
             mask=self.mask.copy(),
+            input_weights=self.input_weights.copy(),
             radius=self.radius,
         )
 
-- 
2.43.0


From eb73f45886e3914b936a15b154744c2978cb6edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:34 +0000
Subject: [PATCH 85/85] fix: Selected_SMOTE selects one significant attribute
 whatever perc_sign_attr is

---
 smote_variants/oversampling/_selected_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_selected_smote.py b/smote_variants/oversampling/_selected_smote.py
index beb2c3d..1127aa3 100755
--- a/smote_variants/oversampling/_selected_smote.py
+++ b/smote_variants/oversampling/_selected_smote.py
@@ -135,7 +135,7 @@ class Selected_SMOTE(OverSampling):
 
         # number of significant attributes to determine
         tmp = int(np.rint(self.perc_sign_attr * len(percentages)))
-        num_sign_attr = np.min([1, tmp])
+        num_sign_attr = np.max([1, tmp])
 
         sign_attr = percentages >= sorted(percentages)[-num_sign_attr]
         sign_attr = sign_attr.astype(int)
-- 
2.43.0

