From 36dd982721cdfdb71dd3091d3b171614d38c87da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 01/39] fix: use predicted probabilities of an outcome
 classifier in the nonignorable SSM

---
 doubleml/irm/ssm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 5a6458c..f6d9163 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -348,7 +348,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d1"][i_fold].fit(xpi_s1_d1_train_2, y_s1_d1_train_2)
 
                 # predict conditional outcome
-                g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d1["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_g_d1"][i_fold], xpi_test)
+                else:
+                    g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
                 g_hat_d1["targets"][test_inds] = y[test_inds]
 
                 # estimate conditional outcome on second training sample - control
@@ -359,7 +362,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d0"][i_fold].fit(xpi_s1_d0_train_2, y_s1_d0_train_2)
 
                 # predict conditional outcome
-                g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
+                if self._predict_method["ml_g"] == "predict_proba":
+                    g_hat_d0["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_g_d0"][i_fold], xpi_test)
+                else:
+                    g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
                 g_hat_d0["targets"][test_inds] = y[test_inds]
 
                 if return_models:
-- 
2.43.0


From 8eb6391ab6792985d43195ebbf48b6cc47396bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 02/39] fix: SSM outcome targets are missing outside the
 selected treatment arm

---
 doubleml/irm/ssm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index f6d9163..edd7c89 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import _check_finite_predictions, _check_score, _check_trimming
-from doubleml.utils._estimation import _dml_cv_predict, _dml_tune, _get_cond_smpls_2d, _predict_zero_one_propensity
+from doubleml.utils._estimation import (
+    _cond_targets,
+    _dml_cv_predict,
+    _dml_tune,
+    _get_cond_smpls_2d,
+    _predict_zero_one_propensity,
+)
 from doubleml.utils._propensity_score import _trimm
 
 
@@ -374,6 +380,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                     pi_hat["models"] = fitted_models["ml_pi"]
                     m_hat["models"] = fitted_models["ml_m"]
 
+        # the outcome regressions are only defined for selected observations of the treatment arm
+        g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
+        g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
+
         m_hat["preds"] = _trimm(m_hat["preds"], self._trimming_rule, self._trimming_threshold)
 
         # treatment indicator
-- 
2.43.0


From 0b1f5b3ae8f1d09c77a3b60edf0524f83aa5b41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 03/39] fix: sign of the Riesz representer of the
 non-normalised observational DID-CS score

---
 doubleml/did/did_cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index a198bce..0fe3bcd 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -496,8 +496,8 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 m_alpha_1 = np.divide(1.0, lambda_hat) + np.divide(1.0, 1.0 - lambda_hat)
                 m_alpha = np.multiply(np.divide(d, np.square(p_hat)), np.multiply(m_alpha_1, 1.0 + propensity_weight_d0))
 
-                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) + np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
-                rr_2 = d + np.multiply(1.0 - d, propensity_weight_d0)
+                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) - np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
+                rr_2 = d - np.multiply(1.0 - d, propensity_weight_d0)
                 rr = np.multiply(rr_1, rr_2)
         else:
             assert self.score == "experimental"
-- 
2.43.0


From de27aaa30457199b40c4c74eab682fea3ee62b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 04/39] fix: centre the score of the re-estimated nu2

---
 doubleml/double_ml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1b88c8e..7c02218 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1449,8 +1449,9 @@ class DoubleML(ABC):
                         "Re-estimation based on riesz representer (non-orthogonal)."
                     )
                     warnings.warn(msg, UserWarning)
-                    psi_nu2 = np.power(riesz_rep, 2)
-                    nu2 = np.mean(psi_nu2, axis=0, keepdims=True)
+                    nu2_score_element = np.power(riesz_rep, 2)
+                    nu2 = np.mean(nu2_score_element, axis=0, keepdims=True)
+                    psi_nu2 = nu2_score_element - nu2
 
                     self.sensitivity_elements["nu2"][:, :, i_treat] = nu2
                     self.sensitivity_elements["psi_nu2"][:, :, i_treat] = psi_nu2
-- 
2.43.0


From fff222d00678f5875f64b7be40c7d89162b81a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 05/39] fix: redraw the splitting of all potential outcome
 models in DoubleMLAPOS.draw_sample_splitting

---
 doubleml/irm/apos.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index e9b160c..2e512be 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -91,9 +91,6 @@ class DoubleMLAPOS:
         if draw_sample_splitting:
             self.draw_sample_splitting()
 
-            # initialize all models if splits are known
-            self._modellist = self._initialize_models()
-
     def __str__(self):
         class_name = self.__class__.__name__
         header = f"================== {class_name} Object ==================\n"
@@ -640,6 +637,8 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # initialize all models
+        self._modellist = self._initialize_models()
 
         return self
 
-- 
2.43.0


From 3ea323968056800e344bb55fbc63cbad9edcbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 06/39] fix: setting a sample splitting discards the results of
 the previous one

---
 doubleml/double_ml.py | 8 ++++++++
 doubleml/irm/apos.py  | 5 +++++
 doubleml/irm/qte.py   | 5 +++++
 3 files changed, 18 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 7c02218..116ac05 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1295,6 +1295,14 @@ class DoubleML(ABC):
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        # discard the results based on the previous sample splitting
+        self._framework = None
+        self._predictions = None
+        self._nuisance_targets = None
+        self._nuisance_loss = None
+        self._models = None
+        self._sensitivity_elements = None
+
         (
             self._psi,
             self._psi_deriv,
diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 2e512be..c1f7e6d 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -637,6 +637,8 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # discard the results based on the previous sample splitting
+        self._framework = None
         # initialize all models
         self._modellist = self._initialize_models()
 
@@ -696,6 +698,9 @@ class DoubleMLAPOS:
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        # discard the results based on the previous sample splitting
+        self._framework = None
+
         self._modellist = self._initialize_models()
 
         return self
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index f05269a..59a2076 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -457,6 +457,8 @@ class DoubleMLQTE:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # discard the results based on the previous sample splitting
+        self._framework = None
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
 
@@ -524,6 +526,9 @@ class DoubleMLQTE:
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        # discard the results based on the previous sample splitting
+        self._framework = None
+
         # initialize all models
         self._modellist_0, self._modellist_1 = self._initialize_models()
 
-- 
2.43.0


From 948ca21d0750029ac1272208356f91c2074f61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 07/39] fix: average the cluster variance over the folds of the
 sample splitting in use

---
 doubleml/double_ml.py         | 3 +++
 doubleml/utils/_estimation.py | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 116ac05..8890759 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1295,6 +1295,9 @@ class DoubleML(ABC):
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
 
+        if self._is_cluster_data:
+            self._n_folds_per_cluster = round(self._n_folds ** (1 / self._dml_data.n_cluster_vars))
+
         # discard the results based on the previous sample splitting
         self._framework = None
         self._predictions = None
diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 25e6262..210a41e 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -287,8 +287,8 @@ def _var_est(psi, psi_deriv, smpls, is_cluster_data, cluster_vars=None, smpls_cl
                 j_hat += np.sum(psi_deriv[test_inds]) / len(I_k)
 
             var_scaling_factor = len(clusters)
-            J = np.divide(j_hat, n_folds_per_cluster)
-            gamma_hat = np.divide(gamma_hat, n_folds_per_cluster)
+            J = np.divide(j_hat, n_folds)
+            gamma_hat = np.divide(gamma_hat, n_folds)
 
         else:
             assert cluster_vars.shape[1] == 2
@@ -313,8 +313,8 @@ def _var_est(psi, psi_deriv, smpls, is_cluster_data, cluster_vars=None, smpls_cl
             n_first_clusters = len(np.unique(first_cluster_var))
             n_second_clusters = len(np.unique(second_cluster_var))
             var_scaling_factor = min(n_first_clusters, n_second_clusters)
-            J = np.divide(j_hat, np.square(n_folds_per_cluster))
-            gamma_hat = np.divide(gamma_hat, np.square(n_folds_per_cluster))
+            J = np.divide(j_hat, n_folds)
+            gamma_hat = np.divide(gamma_hat, n_folds)
 
     scaling = np.divide(1.0, np.multiply(var_scaling_factor, np.square(J)))
     sigma2_hat = np.multiply(scaling, gamma_hat)
-- 
2.43.0


From 0ed5b3d36cf61f0d5f413d81b6f16ad7f73d5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:43 +0000
Subject: [PATCH 08/39] fix: check the cluster partition of every fold and
 repetition

---
 doubleml/utils/_checks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 90833de..71726a3 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -429,10 +429,12 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
         for i_cluster in range(dml_data.n_cluster_vars):
             this_cluster_var = dml_data.cluster_vars[:, i_cluster]
             clusters = np.unique(this_cluster_var)
-            cluster_partition = [all_smpls_cluster[0][0][0][i_cluster], all_smpls_cluster[0][0][1][i_cluster]]
-            is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
-            if not is_cluster_partition:
-                raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
+            for i_fold in range(n_folds):
+                smpl_cluster = all_smpls_cluster[i_rep][i_fold]
+                cluster_partition = [smpl_cluster[0][i_cluster], smpl_cluster[1][i_cluster]]
+                is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
+                if not is_cluster_partition:
+                    raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
     smpls_cluster = all_smpls_cluster
     return smpls_cluster
-- 
2.43.0


From 9581cd14744d1687c8b853a7c93d9e4741422b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 09/39] fix: accept no sample splitting in the nested form used
 by smpls (DoubleMLAPOS, DoubleMLQTE)

---
 doubleml/utils/_checks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 71726a3..2a3fe5f 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -502,7 +502,11 @@ def _check_sample_splitting(all_smpls, all_smpls_cluster, dml_data, is_cluster_d
             if all(smpls_are_partitions):
                 n_rep = len(all_smpls)
                 n_folds = int(n_folds_each_smpl[0])
-                smpls = _check_all_smpls(all_smpls, dml_data.n_obs, check_intersect=True)
+                # a single fold with the whole sample as train and test set corresponds to no sample splitting
+                no_splitting = (n_folds == 1) and all(
+                    _check_is_partition([(smpl[0][1], smpl[0][0])], dml_data.n_obs) for smpl in all_smpls
+                )
+                smpls = _check_all_smpls(all_smpls, dml_data.n_obs, check_intersect=not no_splitting)
             else:
                 raise ValueError("Invalid partition provided. At least one inner list does not form a partition.")
 
-- 
2.43.0


From e69f6f19bcb316b1b8176dd97f4073bd24fab9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:38 +0000
Subject: [PATCH 10/39] fix: reset the starting value of the (local) potential
 quantile in every repetition and fit

---
 doubleml/irm/lpq.py | 3 +++
 doubleml/irm/pq.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 56a9796..481ecec 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -280,6 +280,9 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
         x, z = check_X_y(x, np.ravel(self._dml_data.z), force_all_finite=False)
 
+        # reset the starting value (it is readjusted to the preliminary estimates of each repetition below)
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
+
         m_z = external_predictions["ml_m_z"] is not None
         m_d_d0 = external_predictions["ml_m_d_z0"] is not None
         m_d_d1 = external_predictions["ml_m_d_z1"] is not None
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 4cdcd74..7204bdf 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -255,6 +255,9 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         x, y = check_X_y(self._dml_data.x, self._dml_data.y, force_all_finite=False)
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
 
+        # reset the starting value (it is readjusted to the preliminary estimates of each repetition below)
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
+
         g_external = external_predictions["ml_g"] is not None
         m_external = external_predictions["ml_m"] is not None
 
-- 
2.43.0


From 7bb9008ce0eca38e442ee16b11548f9c55028289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 11/39] fix: use the external propensities of the preliminary
 training sample in DoubleMLPQ

---
 doubleml/irm/pq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 7204bdf..40d2105 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -327,7 +327,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
                 else:
-                    m_hat_prelim = m_hat["preds"][np.concatenate([test for _, test in smpls_prelim])]
+                    m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
                     m_hat_prelim = _normalize_ipw(m_hat_prelim, d_train_1)
-- 
2.43.0


From 781cfac679fdaf463b4171a3cb05ce15edd34ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 12/39] fix: storing the models of DoubleMLPQ and DoubleMLLPQ
 with external predictions

---
 doubleml/irm/lpq.py | 2 +-
 doubleml/irm/pq.py  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 481ecec..a943b24 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -496,7 +496,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         m_d_z0_hat["targets"] = _cond_targets(d, cond_sample=(z == 0))
         m_d_z1_hat["targets"] = _cond_targets(d, cond_sample=(z == 1))
 
-        if return_models:
+        if return_models and not all(ext_preds):
             m_z_hat["models"] = fitted_models["ml_m_z"]
             m_d_z0_hat["models"] = fitted_models["ml_m_d_z0"]
             m_d_z1_hat["models"] = fitted_models["ml_m_d_z1"]
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 40d2105..6fb0a47 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -369,8 +369,10 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         g_hat["targets"] = _cond_targets(g_hat["targets"], cond_sample=(d == self.treatment))
 
         if return_models:
-            g_hat["models"] = fitted_models["ml_g"]
-            m_hat["models"] = fitted_models["ml_m"]
+            if not g_external:
+                g_hat["models"] = fitted_models["ml_g"]
+            if not m_external:
+                m_hat["models"] = fitted_models["ml_m"]
 
         # clip propensities and normalize ipw weights
         m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
-- 
2.43.0


From f5301f281f9cc13098944f589c74e4036d17548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 13/39] fix: raise for partial external predictions in
 DoubleMLLPQ instead of ignoring them

---
 doubleml/irm/lpq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index a943b24..bf57cf4 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -289,6 +289,8 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         g_du_z0 = external_predictions["ml_g_du_z0"] is not None
         g_du_z1 = external_predictions["ml_g_du_z1"] is not None
         ext_preds = [m_z, m_d_d0, m_d_d1, g_du_z0, g_du_z1]
+        if any(ext_preds) and not all(ext_preds):
+            raise ValueError("External predictions for all estimations or for none are required.")
 
         # create strata for splitting
         strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.z.reshape(-1, 1)
@@ -333,8 +335,6 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 else:
                     fitted_models[learner] = [clone(self._learner[learner]) for i_fold in range(self.n_folds)]
             ipw_vec = np.full(shape=self.n_folds, fill_value=np.nan)
-        elif any(ext_preds) and not any(ext_preds):
-            raise ValueError("External predictions for all estimations or for none are required.")
         else:
             m_z_hat = {
                 "models": None,
-- 
2.43.0


From e727814dbf54c46dcbf8983ba9f30beff9b8e1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 14/39] fix: external predictions for a subset of the treatment
 levels (DoubleMLAPOS)

---
 doubleml/irm/apos.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index c1f7e6d..69fa648 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -864,13 +864,10 @@ class DoubleMLAPOS:
     def _rename_external_predictions(self, external_predictions):
         d_col = self._dml_data.d_cols[0]
         ext_pred_dict = {treatment_level: {d_col: {}} for treatment_level in self.treatment_levels}
-        for treatment_level in self.treatment_levels:
-            if "ml_g_d_lvl1" in external_predictions[treatment_level]:
-                ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl1"] = external_predictions[treatment_level]["ml_g_d_lvl1"]
-            if "ml_m" in external_predictions[treatment_level]:
-                ext_pred_dict[treatment_level][d_col]["ml_m"] = external_predictions[treatment_level]["ml_m"]
-            if "ml_g_d_lvl0" in external_predictions[treatment_level]:
-                ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl0"] = external_predictions[treatment_level]["ml_g_d_lvl0"]
+        for treatment_level, predictions in external_predictions.items():
+            for learner in ["ml_g_d_lvl1", "ml_m", "ml_g_d_lvl0"]:
+                if learner in predictions:
+                    ext_pred_dict[treatment_level][d_col][learner] = predictions[learner]
 
         return ext_pred_dict
 
-- 
2.43.0


From b7f670ec4c91fc6e53cc502d255787c761ae9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 15/39] fix: external predictions for a subset of the treatment
 variables

---
 doubleml/utils/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 210a41e..9b3e8fc 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -333,7 +333,7 @@ def _set_external_predictions(external_predictions, learners, treatment, i_rep):
     for learner in learners:
         if external_predictions is None:
             ext_prediction_dict[learner] = None
-        elif learner in external_predictions[treatment].keys():
+        elif treatment in external_predictions.keys() and learner in external_predictions[treatment].keys():
             if isinstance(external_predictions[treatment][learner], np.ndarray):
                 ext_prediction_dict[learner] = external_predictions[treatment][learner][:, i_rep]
             else:
-- 
2.43.0


From 2879ce251c4ec1580924bcc1ca696f6c68a08179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 16/39] fix: do not keep stored predictions and models of a
 previous fit

---
 doubleml/double_ml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 8890759..80b04a6 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1001,6 +1001,8 @@ class DoubleML(ABC):
         # initialize loss arrays for nuisance functions evaluation
         self._initialize_nuisance_loss()
 
+        # discard predictions, targets and models of previous fits
+        self._predictions, self._nuisance_targets, self._models = None, None, None
         if store_predictions:
             self._initialize_predictions_and_targets()
 
-- 
2.43.0


From c3ea9e77534dd481b0d7e41d497627b4239c94ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 17/39] fix: standard errors of a framework multiplied by a
 negative scalar

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6078602..d23cba5 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -398,8 +398,8 @@ class DoubleMLFramework:
             all_thetas = np.multiply(other, self._all_thetas)
 
             var_scaling_factors = self._var_scaling_factors
-            ses = np.multiply(other, self._ses)
-            all_ses = np.multiply(other, self._all_ses)
+            ses = np.multiply(abs(other), self._ses)
+            all_ses = np.multiply(abs(other), self._all_ses)
             scaled_psi = np.multiply(other, self._scaled_psi)
 
             doubleml_dict = {
-- 
2.43.0


From 139386a42825e8d7812be8717c7824c233ea7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 18/39] fix: cluster-robust standard errors of sums and
 differences of frameworks

---
 doubleml/double_ml_framework.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index d23cba5..827330d 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -308,8 +308,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._est_all_ses(scaled_psi, var_scaling_factors)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -356,8 +355,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._est_all_ses(scaled_psi, var_scaling_factors)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -440,6 +438,23 @@ class DoubleMLFramework:
     def __rmul__(self, other):
         return self.__mul__(other)
 
+    def _est_all_ses(self, scaled_psi, var_scaling_factors):
+        if not self._is_cluster_data:
+            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
+        else:
+            sigma2_hat = np.full(shape=scaled_psi.shape[1:], fill_value=np.nan)
+            for i_theta, i_rep in np.ndindex(sigma2_hat.shape):
+                sigma2_hat[i_theta, i_rep], _ = _var_est(
+                    psi=scaled_psi[:, i_theta, i_rep],
+                    psi_deriv=np.ones_like(scaled_psi[:, i_theta, i_rep]),
+                    smpls=self._cluster_dict["smpls"][i_rep],
+                    is_cluster_data=True,
+                    cluster_vars=self._cluster_dict["cluster_vars"],
+                    smpls_cluster=self._cluster_dict["smpls_cluster"][i_rep],
+                    n_folds_per_cluster=self._cluster_dict["n_folds_per_cluster"],
+                )
+        return np.sqrt(sigma2_hat)
+
     def _calc_sensitivity_analysis(self, cf_y, cf_d, rho, level):
         if not self._sensitivity_implemented:
             raise NotImplementedError("Sensitivity analysis is not implemented for this model.")
-- 
2.43.0


From b413f424109359ba2f800926cdf971e1cf8a8f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:48 +0000
Subject: [PATCH 19/39] fix: a framework keeps its values when the model is
 fitted again

---
 doubleml/double_ml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 80b04a6..2438d04 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -551,10 +551,11 @@ class DoubleML(ABC):
 
         doubleml_dict = {
             "thetas": self.coef,
-            "all_thetas": self.all_coef,
+            # copies, the arrays of the model are overwritten by the next fit
+            "all_thetas": self.all_coef.copy(),
             "ses": self.se,
-            "all_ses": self.all_se,
-            "var_scaling_factors": self._var_scaling_factors,
+            "all_ses": self.all_se.copy(),
+            "var_scaling_factors": self._var_scaling_factors.copy(),
             "scaled_psi": scaled_psi_reshape,
             "is_cluster_data": self._is_cluster_data,
             "treatment_names": self._dml_data.d_cols,
-- 
2.43.0


From 72e0c837f440b6e60829eb92fa4578de51d37a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 20/39] fix: detailed results of tune(tune_on_folds=True) with
 several repetitions or treatments

---
 doubleml/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 2438d04..3c8b6f3 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -808,7 +808,7 @@ class DoubleML(ABC):
             raise TypeError(f"return_tune_res must be True or False. Got {str(return_tune_res)}.")
 
         if tune_on_folds:
-            tuning_res = [[None] * self.n_rep] * self._dml_data.n_treat
+            tuning_res = [[None] * self.n_rep for _ in range(self._dml_data.n_treat)]
         else:
             tuning_res = [None] * self._dml_data.n_treat
 
@@ -834,7 +834,7 @@ class DoubleML(ABC):
                         n_iter_randomized_search,
                     )
 
-                    tuning_res[i_rep][i_d] = res
+                    tuning_res[i_d][i_rep] = res
                     nuisance_params.append(res["params"])
 
                 if set_as_params:
-- 
2.43.0


From 7f6e7e96148a7b3b07547bdb65bcc0cf7e6fe897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 21/39] fix: tune does not modify the scoring_methods passed by
 the user

---
 doubleml/double_ml.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 3c8b6f3..610669d 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -764,9 +764,7 @@ class DoubleML(ABC):
                 )
             if not all(k in scoring_methods for k in self.learner_names):
                 # if there are learners for which no scoring_method was set, we fall back to None, i.e., default scoring
-                for learner in self.learner_names:
-                    if learner not in scoring_methods:
-                        scoring_methods[learner] = None
+                scoring_methods = {learner: scoring_methods.get(learner) for learner in self.learner_names}
 
         if not isinstance(tune_on_folds, bool):
             raise TypeError(f"tune_on_folds must be True or False. Got {str(tune_on_folds)}.")
-- 
2.43.0


From e01f0d755d2fb0c699ccbde3606ae329420164d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 22/39] fix: raise for external predictions in partially linear
 IV models not using them

---
 doubleml/plm/pliv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index dc0fbd2..c8d91fb 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -159,6 +159,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._check_data(obj._dml_data)
         obj.partialX = False
         obj.partialZ = True
+        obj._external_predictions_implemented = False
         obj._check_score(obj.score)
         _ = obj._check_learner(ml_r, "ml_r", regressor=True, classifier=False)
         obj._learner = {"ml_r": ml_r}
@@ -174,6 +175,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._check_data(obj._dml_data)
         obj.partialX = True
         obj.partialZ = True
+        obj._external_predictions_implemented = False
         obj._check_score(obj.score)
         _ = obj._check_learner(ml_l, "ml_l", regressor=True, classifier=False)
         _ = obj._check_learner(ml_m, "ml_m", regressor=True, classifier=False)
-- 
2.43.0


From 79240c0903d0e6df67023c8d189038d0e7ca28f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 23/39] fix: reject sums and differences of frameworks with
 different cluster variables

---
 doubleml/utils/_checks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 2a3fe5f..0e1fdfe 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -380,6 +380,10 @@ def _check_framework_compatibility(dml_framework_1, dml_framework_2, check_treat
             "The cluster structure in DoubleMLFrameworks must be the same. "
             f"Got {str(dml_framework_1._is_cluster_data)} and {str(dml_framework_2._is_cluster_data)}."
         )
+
+    if dml_framework_1._is_cluster_data:
+        if not np.array_equal(dml_framework_1._cluster_dict["cluster_vars"], dml_framework_2._cluster_dict["cluster_vars"]):
+            raise ValueError("The cluster variables in DoubleMLFrameworks must be the same.")
     return
 
 
-- 
2.43.0


From b79ec4bb70df2e7bd0292e1a95c32bf38d48cac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 24/39] fix: standardize the scores of clustered models with
 the derivative used for the standard errors

---
 doubleml/double_ml.py         | 23 +++++++++++++++++++++--
 doubleml/utils/_estimation.py |  8 ++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 610669d..8073789 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -10,7 +10,13 @@ from sklearn.base import is_classifier, is_regressor
 from .double_ml_data import DoubleMLBaseData, DoubleMLClusterData
 from .double_ml_framework import DoubleMLFramework
 from .utils._checks import _check_external_predictions, _check_sample_splitting
-from .utils._estimation import _aggregate_coefs_and_ses, _rmse, _set_external_predictions, _var_est
+from .utils._estimation import (
+    _aggregate_coefs_and_ses,
+    _mean_over_cluster_folds,
+    _rmse,
+    _set_external_predictions,
+    _var_est,
+)
 from .utils._sensitivity import _compute_sensitivity_bias
 from .utils.gain_statistics import gain_statistics
 from .utils.resampling import DoubleMLClusterResampling, DoubleMLResampling
@@ -546,7 +552,20 @@ class DoubleML(ABC):
         doubleml_framework : doubleml.DoubleMLFramework
         """
         # standardize the score function and reshape to (n_obs, n_coefs, n_rep)
-        scaled_psi = np.divide(self.psi, np.mean(self.psi_deriv, axis=0))
+        if not self._is_cluster_data:
+            scaling = np.mean(self.psi_deriv, axis=0)
+        else:
+            # use the same average of the score derivative as in the cluster robust standard errors
+            scaling = np.stack(
+                [
+                    np.divide(
+                        _mean_over_cluster_folds(self.psi_deriv[:, i_rep, :], self.smpls[i_rep], self.smpls_cluster[i_rep]),
+                        _mean_over_cluster_folds(np.ones(self._dml_data.n_obs), self.smpls[i_rep], self.smpls_cluster[i_rep]),
+                    )
+                    for i_rep in range(self.n_rep)
+                ]
+            )
+        scaled_psi = np.divide(self.psi, scaling)
         scaled_psi_reshape = np.transpose(scaled_psi, (0, 2, 1))
 
         doubleml_dict = {
diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 9b3e8fc..f64f62e 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -322,6 +322,14 @@ def _var_est(psi, psi_deriv, smpls, is_cluster_data, cluster_vars=None, smpls_cl
     return sigma2_hat, var_scaling_factor
 
 
+def _mean_over_cluster_folds(values, smpls, smpls_cluster):
+    fold_means = [
+        np.sum(values[test_inds], axis=0) / np.prod([len(cluster_inds) for cluster_inds in test_cluster_inds])
+        for (_, test_inds), (_, test_cluster_inds) in zip(smpls, smpls_cluster)
+    ]
+    return np.mean(fold_means, axis=0)
+
+
 def _cond_targets(target, cond_sample):
     cond_target = target.astype(float)
     cond_target[np.invert(cond_sample)] = np.nan
-- 
2.43.0


From 0607366fe1ecff7810b28eee9a7f793c1e7f8084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:03 +0000
Subject: [PATCH 25/39] fix: data setters keep the object unchanged on rejected
 values and refresh the binary indicators

---
 doubleml/double_ml_data.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 3ebf2f7..89c3526 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -1,5 +1,6 @@
 import io
 from abc import ABC, abstractmethod
+from functools import wraps
 
 import numpy as np
 import pandas as pd
@@ -11,6 +12,22 @@ from .utils._checks import _check_set
 from .utils._estimation import _assure_2d_array
 
 
+def _restore_on_error(setter):
+    """Decorator for setters, a rejected value leaves the object unchanged."""
+
+    @wraps(setter)
+    def wrapper(self, value):
+        state = self.__dict__.copy()
+        try:
+            setter(self, value)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 class DoubleMLBaseData(ABC):
     """Base Class Double machine learning data-backends"""
 
@@ -415,6 +432,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._x_cols
 
     @x_cols.setter
+    @_restore_on_error
     def x_cols(self, value):
         reset_value = hasattr(self, "_x_cols")
         if value is not None:
@@ -452,6 +470,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._d_cols
 
     @d_cols.setter
+    @_restore_on_error
     def d_cols(self, value):
         reset_value = hasattr(self, "_d_cols")
         if isinstance(value, str):
@@ -468,6 +487,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._d_cols = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_treats = self._check_binary_treats()
             # by default, we initialize to the first treatment variable
             self.set_x_d(self.d_cols[0])
 
@@ -479,6 +499,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._y_col
 
     @y_col.setter
+    @_restore_on_error
     def y_col(self, value):
         reset_value = hasattr(self, "_y_col")
         if not isinstance(value, str):
@@ -491,6 +512,7 @@ class DoubleMLData(DoubleMLBaseData):
         if reset_value:
             self._check_disjoint_sets()
             self._set_y_z_t_s()
+            self._binary_outcome = self._check_binary_outcome()
 
     @property
     def z_cols(self):
@@ -500,6 +522,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._z_cols
 
     @z_cols.setter
+    @_restore_on_error
     def z_cols(self, value):
         reset_value = hasattr(self, "_z_cols")
         if value is not None:
@@ -531,6 +554,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._t_col
 
     @t_col.setter
+    @_restore_on_error
     def t_col(self, value):
         reset_value = hasattr(self, "_t_col")
         if value is not None:
@@ -556,6 +580,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._s_col
 
     @s_col.setter
+    @_restore_on_error
     def s_col(self, value):
         reset_value = hasattr(self, "_s_col")
         if value is not None:
@@ -581,6 +606,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._use_other_treat_as_covariate
 
     @use_other_treat_as_covariate.setter
+    @_restore_on_error
     def use_other_treat_as_covariate(self, value):
         reset_value = hasattr(self, "_use_other_treat_as_covariate")
         if not isinstance(value, bool):
@@ -598,6 +624,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._force_all_x_finite
 
     @force_all_x_finite.setter
+    @_restore_on_error
     def force_all_x_finite(self, value):
         reset_value = hasattr(self, "_force_all_x_finite")
         if isinstance(value, str):
@@ -971,6 +998,7 @@ class DoubleMLClusterData(DoubleMLData):
         return self._cluster_cols
 
     @cluster_cols.setter
+    @_restore_on_error
     def cluster_cols(self, value):
         reset_value = hasattr(self, "_cluster_cols")
         if isinstance(value, str):
-- 
2.43.0


From f1ee6313af08faefd21c05d35e7e46f82f58c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:11 +0000
Subject: [PATCH 26/39] fix: reject non-finite predictions in quantile,
 selection and repeated cross-section models

---
 doubleml/did/did_cs.py |  4 ++++
 doubleml/irm/cvar.py   |  5 +++++
 doubleml/irm/lpq.py    | 18 +++++++++++++++++-
 doubleml/irm/pq.py     |  7 +++++++
 doubleml/irm/ssm.py    |  5 +++++
 5 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index 0fe3bcd..a8e00e5 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -245,6 +245,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
             )
 
             g_hat_d0_t0["targets"] = g_hat_d0_t0["targets"].astype(float)
+            _check_finite_predictions(g_hat_d0_t0["preds"], self._learner["ml_g"], "ml_g", smpls)
             g_hat_d0_t0["targets"][np.invert((d == 0) & (t == 0))] = np.nan
         if external_predictions["ml_g_d0_t1"] is not None:
             g_hat_d0_t1 = {"preds": external_predictions["ml_g_d0_t1"], "targets": None, "models": None}
@@ -260,6 +261,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 return_models=return_models,
             )
             g_hat_d0_t1["targets"] = g_hat_d0_t1["targets"].astype(float)
+            _check_finite_predictions(g_hat_d0_t1["preds"], self._learner["ml_g"], "ml_g", smpls)
             g_hat_d0_t1["targets"][np.invert((d == 0) & (t == 1))] = np.nan
         if external_predictions["ml_g_d1_t0"] is not None:
             g_hat_d1_t0 = {"preds": external_predictions["ml_g_d1_t0"], "targets": None, "models": None}
@@ -275,6 +277,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 return_models=return_models,
             )
             g_hat_d1_t0["targets"] = g_hat_d1_t0["targets"].astype(float)
+            _check_finite_predictions(g_hat_d1_t0["preds"], self._learner["ml_g"], "ml_g", smpls)
             g_hat_d1_t0["targets"][np.invert((d == 1) & (t == 0))] = np.nan
         if external_predictions["ml_g_d1_t1"] is not None:
             g_hat_d1_t1 = {"preds": external_predictions["ml_g_d1_t1"], "targets": None, "models": None}
@@ -290,6 +293,7 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 return_models=return_models,
             )
             g_hat_d1_t1["targets"] = g_hat_d1_t1["targets"].astype(float)
+            _check_finite_predictions(g_hat_d1_t1["preds"], self._learner["ml_g"], "ml_g", smpls)
             g_hat_d1_t1["targets"][np.invert((d == 1) & (t == 1))] = np.nan
 
         # only relevant for observational or experimental setting
diff --git a/doubleml/irm/cvar.py b/doubleml/irm/cvar.py
index e77031e..64e0863 100644
--- a/doubleml/irm/cvar.py
+++ b/doubleml/irm/cvar.py
@@ -8,6 +8,7 @@ from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import (
     _check_contains_iv,
+    _check_finite_predictions,
     _check_quantile,
     _check_score,
     _check_treatment,
@@ -251,6 +252,7 @@ class DoubleMLCVAR(LinearScoreMixin, DoubleML):
             m_hat_prelim = _dml_cv_predict(ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim)[
                 "preds"
             ]
+            _check_finite_predictions(m_hat_prelim, self._learner["ml_m"], "ml_m", smpls_prelim)
 
             m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
 
@@ -292,6 +294,9 @@ class DoubleMLCVAR(LinearScoreMixin, DoubleML):
             fitted_models["ml_m"][i_fold].fit(x[train_inds, :], d[train_inds])
             m_hat["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_m"][i_fold], x_test)
 
+        _check_finite_predictions(g_hat["preds"], self._learner["ml_g"], "ml_g", smpls)
+        _check_finite_predictions(m_hat["preds"], self._learner["ml_m"], "ml_m", smpls)
+
         # set target for propensity score
         m_hat["targets"] = d
 
diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index bf57cf4..8e8fce6 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -7,7 +7,14 @@ from sklearn.utils.multiclass import type_of_target
 from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import NonLinearScoreMixin
-from doubleml.utils._checks import _check_quantile, _check_score, _check_treatment, _check_trimming, _check_zero_one_treatment
+from doubleml.utils._checks import (
+    _check_finite_predictions,
+    _check_quantile,
+    _check_score,
+    _check_treatment,
+    _check_trimming,
+    _check_zero_one_treatment,
+)
 from doubleml.utils._estimation import (
     _cond_targets,
     _default_kde,
@@ -387,6 +394,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 m_z_hat_prelim = _dml_cv_predict(
                     ml_m_z_prelim, x_train_1, z_train_1, method="predict_proba", smpls=smpls_prelim
                 )["preds"]
+                _check_finite_predictions(m_z_hat_prelim, self._learner["ml_m_z"], "ml_m_z", smpls_prelim)
 
                 m_z_hat_prelim = _trimm(m_z_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
@@ -399,6 +407,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 ml_m_d_z0_prelim = clone(fitted_models["ml_m_d_z0"][i_fold])
                 ml_m_d_z0_prelim.fit(x_z0_train_1, d_z0_train_1)
                 m_d_z0_hat_prelim = _predict_zero_one_propensity(ml_m_d_z0_prelim, x_train_1)
+                _check_finite_predictions(m_d_z0_hat_prelim, self._learner["ml_m_d_z0"], "ml_m_d_z0", smpls_prelim)
 
                 # propensity for d == 1 cond. on z == 1 (training set 1)
                 z1_train_1 = z_train_1 == 1
@@ -407,6 +416,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 ml_m_d_z1_prelim = clone(fitted_models["ml_m_d_z1"][i_fold])
                 ml_m_d_z1_prelim.fit(x_z1_train_1, d_z1_train_1)
                 m_d_z1_hat_prelim = _predict_zero_one_propensity(ml_m_d_z1_prelim, x_train_1)
+                _check_finite_predictions(m_d_z1_hat_prelim, self._learner["ml_m_d_z1"], "ml_m_d_z1", smpls_prelim)
 
                 # preliminary estimate of theta_2_aux
                 comp_prob_prelim = np.mean(
@@ -485,6 +495,12 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 fitted_models["ml_m_d_z1"][i_fold].fit(x_z1_train, d_z1_train)
                 m_d_z1_hat["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_m_d_z1"][i_fold], x_test)
 
+            _check_finite_predictions(m_z_hat["preds"], self._learner["ml_m_z"], "ml_m_z", smpls)
+            _check_finite_predictions(m_d_z0_hat["preds"], self._learner["ml_m_d_z0"], "ml_m_d_z0", smpls)
+            _check_finite_predictions(m_d_z1_hat["preds"], self._learner["ml_m_d_z1"], "ml_m_d_z1", smpls)
+            _check_finite_predictions(g_du_z0_hat["preds"], self._learner["ml_g_du_z0"], "ml_g_du_z0", smpls)
+            _check_finite_predictions(g_du_z1_hat["preds"], self._learner["ml_g_du_z1"], "ml_g_du_z1", smpls)
+
         # save targets and models
         m_z_hat["targets"] = z
 
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 6fb0a47..2286f7d 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -8,6 +8,7 @@ from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import NonLinearScoreMixin
 from doubleml.utils._checks import (
     _check_contains_iv,
+    _check_finite_predictions,
     _check_quantile,
     _check_score,
     _check_treatment,
@@ -326,6 +327,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                     m_hat_prelim = _dml_cv_predict(
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
+                    _check_finite_predictions(m_hat_prelim, self._learner["ml_m"], "ml_m", smpls_prelim)
                 else:
                     m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
@@ -362,6 +364,11 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                     fitted_models["ml_m"][i_fold].fit(x[train_inds, :], d[train_inds])
                     m_hat["preds"][test_inds] = _predict_zero_one_propensity(fitted_models["ml_m"][i_fold], x[test_inds, :])
 
+        if not g_external:
+            _check_finite_predictions(g_hat["preds"], self._learner["ml_g"], "ml_g", smpls)
+        if not m_external:
+            _check_finite_predictions(m_hat["preds"], self._learner["ml_m"], "ml_m", smpls)
+
         # set target for propensity score
         m_hat["targets"] = d
 
diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index edd7c89..92a6052 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -328,6 +328,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_pi"][i_fold].fit(dx_train_1, s_train_1)
                 pi_hat_prelim["preds"] = _predict_zero_one_propensity(fitted_models["ml_pi"][i_fold], dx)
                 pi_hat_prelim["targets"] = s
+                _check_finite_predictions(pi_hat_prelim["preds"], self._learner["ml_pi"], "ml_pi", smpls)
 
                 # predictions for small pi in denominator
                 pi_hat["preds"][test_inds] = pi_hat_prelim["preds"][test_inds]
@@ -380,6 +381,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                     pi_hat["models"] = fitted_models["ml_pi"]
                     m_hat["models"] = fitted_models["ml_m"]
 
+            _check_finite_predictions(m_hat["preds"], self._learner["ml_m"], "ml_m", smpls)
+            _check_finite_predictions(g_hat_d1["preds"], self._learner["ml_g"], "ml_g_d1", smpls)
+            _check_finite_predictions(g_hat_d0["preds"], self._learner["ml_g"], "ml_g_d0", smpls)
+
         # the outcome regressions are only defined for selected observations of the treatment arm
         g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=((d == 1) & (s == 1)))
         g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=((d == 0) & (s == 1)))
-- 
2.43.0


From 9789b8c4a56d2d198120b914af53375e015a296a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 27/39] fix: tuning of ml_g with integer outcome, treatment or
 instrument variables

---
 doubleml/plm/pliv.py | 6 +++---
 doubleml/plm/plr.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index c8d91fb..59ff1f3 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -596,9 +596,9 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
             # an ML model for g is obtained for the IV-type score and callable scores
             if "ml_g" in self._learner:
                 # construct an initial theta estimate from the tuned models using the partialling out score
-                l_hat = np.full_like(y, np.nan)
-                m_hat = np.full_like(z, np.nan)
-                r_hat = np.full_like(d, np.nan)
+                l_hat = np.full_like(y, np.nan, dtype="float64")
+                m_hat = np.full_like(z, np.nan, dtype="float64")
+                r_hat = np.full_like(d, np.nan, dtype="float64")
                 for idx, (train_index, _) in enumerate(smpls):
                     l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                     m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 1b45d86..a36f970 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -324,8 +324,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
         # an ML model for g is obtained for the IV-type score and callable scores
         if "ml_g" in self._learner:
             # construct an initial theta estimate from the tuned models using the partialling out score
-            l_hat = np.full_like(y, np.nan)
-            m_hat = np.full_like(d, np.nan)
+            l_hat = np.full_like(y, np.nan, dtype="float64")
+            m_hat = np.full_like(d, np.nan, dtype="float64")
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                 m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
-- 
2.43.0


From 67fac1e326145466cdf2306b15e71c8380ca56b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 28/39] fix: policy trees with orthogonal signals of exactly
 zero

---
 doubleml/utils/policytree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index ca771ad..a6c27af 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -98,7 +98,8 @@ class DoubleMLPolicyTree:
         -------
         self : object
         """
-        bin_signal = (np.sign(self._orth_signal) + 1) / 2
+        # observations with a signal of exactly zero have zero weight, their label is irrelevant
+        bin_signal = (self._orth_signal > 0).astype(float)
         abs_signal = np.abs(self._orth_signal)
 
         # fit the tree with target binary score, sample weights absolute score and
-- 
2.43.0


From 5655d7917a1e46dc9eb96285394f5a4f9324d564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 29/39] fix: orientation, null hypothesis and missing scenario
 of the sensitivity contour plot

---
 doubleml/double_ml_framework.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 827330d..4d7825f 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -872,7 +872,6 @@ class DoubleMLFramework:
         _check_in_zero_one(grid_bounds[1], "grid_bounds", include_zero=False, include_one=False)
         _check_integer(grid_size, "grid_size", lower_bound=10)
 
-        null_hypothesis = self.sensitivity_params["input"]["null_hypothesis"][idx_treatment]
         unadjusted_theta = self.thetas[idx_treatment]
         # check which side is relvant
         bound = "upper" if (null_hypothesis > unadjusted_theta) else "lower"
@@ -881,7 +880,7 @@ class DoubleMLFramework:
         cf_d_vec = np.linspace(0, grid_bounds[0], grid_size)
         cf_y_vec = np.linspace(0, grid_bounds[1], grid_size)
 
-        # compute contour values
+        # compute contour values (rows correspond to the y-axis, i.e. cf_y, and columns to the x-axis, i.e. cf_d)
         contour_values = np.full(shape=(grid_size, grid_size), fill_value=np.nan)
         for i_cf_d_grid, cf_d_grid in enumerate(cf_d_vec):
             for i_cf_y_grid, cf_y_grid in enumerate(cf_y_vec):
@@ -891,14 +890,14 @@ class DoubleMLFramework:
                     rho=rho,
                     level=level,
                 )
-                contour_values[i_cf_d_grid, i_cf_y_grid] = sens_dict[value][bound][idx_treatment]
+                contour_values[i_cf_y_grid, i_cf_d_grid] = sens_dict[value][bound][idx_treatment]
 
         # get the correct unadjusted value for confidence bands
         if value == "theta":
             unadjusted_value = unadjusted_theta
         else:
             assert value == "ci"
-            ci = self.confint(level=self.sensitivity_params["input"]["level"])
+            ci = self.confint(level=level)
             if bound == "upper":
                 unadjusted_value = ci.iloc[idx_treatment, 1]
             else:
@@ -913,19 +912,26 @@ class DoubleMLFramework:
                 sens_dict_bench = self._calc_sensitivity_analysis(
                     cf_y=benchmarks["cf_y"][benchmark_idx],
                     cf_d=benchmarks["cf_d"][benchmark_idx],
-                    rho=self.sensitivity_params["input"]["rho"],
-                    level=self.sensitivity_params["input"]["level"],
+                    rho=rho,
+                    level=level,
                 )
                 benchmark_values[benchmark_idx] = sens_dict_bench[value][bound][idx_treatment]
             benchmark_dict["value"] = benchmark_values
+
+        scenario_x, scenario_y, scenario_value = None, None, None
+        if include_scenario:
+            scenario_x = self.sensitivity_params["input"]["cf_d"]
+            scenario_y = self.sensitivity_params["input"]["cf_y"]
+            scenario_value = self.sensitivity_params[value][bound][idx_treatment]
+
         fig = _sensitivity_contour_plot(
             x=cf_d_vec,
             y=cf_y_vec,
             contour_values=contour_values,
             unadjusted_value=unadjusted_value,
-            scenario_x=self.sensitivity_params["input"]["cf_d"],
-            scenario_y=self.sensitivity_params["input"]["cf_y"],
-            scenario_value=self.sensitivity_params[value][bound][idx_treatment],
+            scenario_x=scenario_x,
+            scenario_y=scenario_y,
+            scenario_value=scenario_value,
             include_scenario=include_scenario,
             benchmarks=benchmark_dict,
             fill=fill,
-- 
2.43.0


From 0ded72b496e86ed018a3680f4aa1b1353593d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:17 +0000
Subject: [PATCH 30/39] fix: accept integer dummy-coded groups in gate and gapo
 as documented

---
 doubleml/irm/apo.py | 3 ++-
 doubleml/irm/irm.py | 3 ++-
 doubleml/plm/plr.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index e8c7517..8a97041 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -508,7 +508,8 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        is_int_dummy = all(groups.dtypes == int) and groups.isin([0, 1]).to_numpy().all()
+        if not (all(groups.dtypes == bool) or is_int_dummy):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index 72db088..b5b1f78 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -518,7 +518,8 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        is_int_dummy = all(groups.dtypes == int) and groups.isin([0, 1]).to_numpy().all()
+        if not (all(groups.dtypes == bool) or is_int_dummy):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index a36f970..9f180fc 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -418,7 +418,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
 
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        is_int_dummy = all(groups.dtypes == int) and groups.isin([0, 1]).to_numpy().all()
+        if not (all(groups.dtypes == bool) or is_int_dummy):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
-- 
2.43.0


From 4c31909256229ca8a085b27338b3485b4ee15b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 31/39] fix: force_all_x_finite keeps recording the requested
 requirement when the covariates violate it

---
 doubleml/double_ml_data.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 89c3526..a224029 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -624,7 +624,6 @@ class DoubleMLData(DoubleMLBaseData):
         return self._force_all_x_finite
 
     @force_all_x_finite.setter
-    @_restore_on_error
     def force_all_x_finite(self, value):
         reset_value = hasattr(self, "_force_all_x_finite")
         if isinstance(value, str):
-- 
2.43.0


From 7bdf591ff8153657f8b94106a7a403df51bac5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:32 +0000
Subject: [PATCH 32/39] fix: RDFlex first stage predictions were stored with
 the type of the outcome (truncated for integer outcomes)

---
 doubleml/rdd/rdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 858ae5e..3052be4 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -425,7 +425,7 @@ class RDFlex:
         ZX_left = np.column_stack((Z_left, X))
         ZX_right = np.column_stack((Z_right, X))
 
-        mu_left, mu_right = np.full_like(outcome, fill_value=np.nan), np.full_like(outcome, fill_value=np.nan)
+        mu_left, mu_right = np.full(outcome.shape, fill_value=np.nan), np.full(outcome.shape, fill_value=np.nan)
 
         for train_index, test_index in smpls:
             estimator = clone(self._learner[estimator_name])
-- 
2.43.0


From ae32574f577ef14273b4099860c65b7dc5afbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:32 +0000
Subject: [PATCH 33/39] fix: RDFlex did not record the bandwidth of the final
 repetition step when no initial bandwidth is iterated

---
 doubleml/rdd/rdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 3052be4..5373ef2 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -460,7 +460,7 @@ class RDFlex:
         return rdd_res
 
     def _set_coefs(self, rdd_res, h):
-        self._h[self._i_rep] = h
+        self._h[self._i_rep] = rdd_res.bws.loc["h"].max() if h is None else h
         self._all_coef[:, self._i_rep] = rdd_res.coef.values.flatten()
         self._all_se[:, self._i_rep] = rdd_res.se.values.flatten()
         self._all_ci[:, :, self._i_rep] = rdd_res.ci.values
-- 
2.43.0


From b656f1763c80b0bb96da8724f6dff4a32cb086e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:32 +0000
Subject: [PATCH 34/39] fix: IIVM placeholder predictions were stored with the
 type of the treatment

---
 doubleml/irm/iivm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/iivm.py b/doubleml/irm/iivm.py
index d78d6f3..e2c7946 100644
--- a/doubleml/irm/iivm.py
+++ b/doubleml/irm/iivm.py
@@ -341,7 +341,7 @@ class DoubleMLIIVM(LinearScoreMixin, DoubleML):
                     return_models=return_models,
                 )
         else:
-            r_hat0 = {"preds": np.zeros_like(d), "targets": np.zeros_like(d), "models": None}
+            r_hat0 = {"preds": np.zeros(d.shape), "targets": np.zeros(d.shape), "models": None}
         if not r0:
             _check_finite_predictions(r_hat0["preds"], self._learner["ml_r"], "ml_r", smpls)
             # adjust target values to consider only compatible subsamples
@@ -364,7 +364,7 @@ class DoubleMLIIVM(LinearScoreMixin, DoubleML):
                     return_models=return_models,
                 )
         else:
-            r_hat1 = {"preds": np.ones_like(d), "targets": np.ones_like(d), "models": None}
+            r_hat1 = {"preds": np.ones(d.shape), "targets": np.ones(d.shape), "models": None}
         if not r1:
             _check_finite_predictions(r_hat1["preds"], self._learner["ml_r"], "ml_r", smpls)
             # adjust target values to consider only compatible subsamples
-- 
2.43.0


From f5dd786bdec6693dd62ed0e2a77d9dccd2ad9877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:40 +0000
Subject: [PATCH 35/39] fix: interval checks of numeric arguments accepted NaN

---
 doubleml/double_ml_framework.py |  2 +-
 doubleml/irm/qte.py             |  2 +-
 doubleml/rdd/rdd.py             |  2 +-
 doubleml/utils/_checks.py       | 16 ++++++++--------
 doubleml/utils/blp.py           |  2 +-
 5 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 4d7825f..c088112 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -664,7 +664,7 @@ class DoubleMLFramework:
 
         if not isinstance(level, float):
             raise TypeError(f"The confidence level must be of float type. {str(level)} of type {str(type(level))} was passed.")
-        if (level <= 0) | (level >= 1):
+        if not (0 < level < 1):
             raise ValueError(f"The confidence level must be in (0,1). {str(level)} was passed.")
 
         # compute critical values
diff --git a/doubleml/irm/qte.py b/doubleml/irm/qte.py
index 59a2076..84e56d1 100644
--- a/doubleml/irm/qte.py
+++ b/doubleml/irm/qte.py
@@ -606,7 +606,7 @@ class DoubleMLQTE:
         return
 
     def _check_quantile(self):
-        if np.any(self.quantiles <= 0) | np.any(self.quantiles >= 1):
+        if not np.all((self.quantiles > 0) & (self.quantiles < 1)):
             raise ValueError("Quantiles have be between 0 or 1. " + f"Quantiles {str(self.quantiles)} passed.")
 
     def _initialize_models(self):
diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 5373ef2..4adc6bd 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -382,7 +382,7 @@ class RDFlex:
         """
         if not isinstance(level, float):
             raise TypeError(f"The confidence level must be of float type. {str(level)} of type {str(type(level))} was passed.")
-        if (level <= 0) | (level >= 1):
+        if not (0 < level < 1):
             raise ValueError(f"The confidence level must be in (0,1). {str(level)} was passed.")
 
         # compute critical values
diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 0e1fdfe..14d95cf 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -9,16 +9,16 @@ def _check_in_zero_one(value, name, include_zero=True, include_one=True):
     if not isinstance(value, float):
         raise TypeError(f"{name} must be of float type. {str(value)} of type {str(type(value))} was passed.")
     if include_zero & include_one:
-        if (value < 0) | (value > 1):
+        if not (0 <= value <= 1):
             raise ValueError(f"{name} must be in [0,1]. {str(value)} was passed.")
     elif (not include_zero) & include_one:
-        if (value <= 0) | (value > 1):
+        if not (0 < value <= 1):
             raise ValueError(f"{name} must be in (0,1]. {str(value)} was passed.")
     elif include_zero & (not include_one):
-        if (value < 0) | (value >= 1):
+        if not (0 <= value < 1):
             raise ValueError(f"{name} must be in [0,1). {str(value)} was passed.")
     else:
-        if (value <= 0) | (value >= 1):
+        if not (0 < value < 1):
             raise ValueError(f"{name} must be in (0,1). {str(value)} was passed.")
     return
 
@@ -39,10 +39,10 @@ def _check_float(value, name, lower_bound=None, upper_bound=None):
     if not isinstance(value, float):
         raise TypeError(f"{name} must be of float type. {str(value)} of type {str(type(value))} was passed.")
     if lower_bound is not None:
-        if value < lower_bound:
+        if not value >= lower_bound:
             raise ValueError(f"{name} must be larger or equal to {lower_bound}. {str(value)} was passed.")
     if upper_bound is not None:
-        if value > upper_bound:
+        if not value <= upper_bound:
             raise ValueError(f"{name} must be smaller or equal to {upper_bound}. {str(value)} was passed.")
 
 
@@ -141,7 +141,7 @@ def _check_trimming(trimming_rule, trimming_threshold):
         )
     if not isinstance(trimming_threshold, float):
         raise TypeError("trimming_threshold has to be a float. " + f"Object of type {str(type(trimming_threshold))} passed.")
-    if (trimming_threshold <= 0) | (trimming_threshold >= 0.5):
+    if not (0 < trimming_threshold < 0.5):
         raise ValueError(
             "Invalid trimming_threshold " + str(trimming_threshold) + ". " + "trimming_threshold has to be between 0 and 0.5."
         )
@@ -174,7 +174,7 @@ def _check_quantile(quantile):
     if not isinstance(quantile, float):
         raise TypeError("Quantile has to be a float. " + f"Object of type {str(type(quantile))} passed.")
 
-    if (quantile <= 0) | (quantile >= 1):
+    if not (0 < quantile < 1):
         raise ValueError("Quantile has be between 0 or 1. " + f"Quantile {str(quantile)} passed.")
     return
 
diff --git a/doubleml/utils/blp.py b/doubleml/utils/blp.py
index 13844ee..03fa65e 100644
--- a/doubleml/utils/blp.py
+++ b/doubleml/utils/blp.py
@@ -162,7 +162,7 @@ class DoubleMLBLP:
 
         if not isinstance(level, float):
             raise TypeError(f"The confidence level must be of float type. {str(level)} of type {str(type(level))} was passed.")
-        if (level <= 0) | (level >= 1):
+        if not (0 < level < 1):
             raise ValueError(f"The confidence level must be in (0,1). {str(level)} was passed.")
 
         if not isinstance(n_rep_boot, int):
-- 
2.43.0


From 39f664a8935f24adf3eb355172e64c1f9e3f4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 36/39] fix: infinite weights were accepted

---
 doubleml/utils/_checks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 14d95cf..629dbd0 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -244,6 +244,8 @@ def _check_weights(weights, score, n_obs, n_rep):
                 raise ValueError(f"weights must have shape ({n_obs},). weights of shape {weights.shape} was passed.")
             if not np.all(0 <= weights):
                 raise ValueError("All weights values must be greater or equal 0.")
+            if not np.all(np.isfinite(weights)):
+                raise ValueError("All weights values must be finite.")
             if weights.sum() == 0:
                 raise ValueError("At least one weight must be non-zero.")
 
@@ -277,6 +279,8 @@ def _check_weights(weights, score, n_obs, n_rep):
                 )
             if (not np.all(weights["weights"] >= 0)) or (not np.all(weights["weights_bar"] >= 0)):
                 raise ValueError("All weights values must be greater or equal 0.")
+            if (not np.all(np.isfinite(weights["weights"]))) or (not np.all(np.isfinite(weights["weights_bar"]))):
+                raise ValueError("All weights values must be finite.")
             if (weights["weights"].sum() == 0) or (weights["weights_bar"].sum() == 0):
                 raise ValueError("At least one weight must be non-zero.")
     return
-- 
2.43.0


From 3600c76c488105e1ebdd0ce90e58cecd6f8761c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 37/39] fix: SSM did not check that treatment and selection
 variables are binary

---
 doubleml/irm/ssm.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 92a6052..4e5d03a 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -205,6 +205,20 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                              is None. To estimate treatment effect under nonignorable nonresponse, \
                              specify an instrument for the selection variable."
             )
+        if not obj_dml_data.binary_treats.all():
+            raise ValueError(
+                "Incompatible data. "
+                "To fit an SSM model with DML "
+                "only binary variables with values 0 and 1 "
+                "can be specified as treatment variables."
+            )
+        if obj_dml_data.s is None or not np.all((np.power(obj_dml_data.s, 2) - obj_dml_data.s) == 0):
+            raise ValueError(
+                "Incompatible data. "
+                "To fit an SSM model with DML "
+                "exactly one binary variable with values 0 and 1 "
+                "needs to be specified as selection variable."
+            )
         return
 
     def _nuisance_est(self, smpls, n_jobs_cv, external_predictions, return_models=False):
-- 
2.43.0


From 44ec5c1b5beda4b7b68d533438b207f8264903a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:15 +0000
Subject: [PATCH 38/39] fix: DoubleMLAPOS.fit checked external predictions
 level by level while fitting

---
 doubleml/irm/apos.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index 69fa648..993e57f 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLClusterData, DoubleMLData
 from doubleml.double_ml_framework import concat
 from doubleml.irm.apo import DoubleMLAPO
-from doubleml.utils._checks import _check_sample_splitting, _check_score, _check_trimming, _check_weights
+from doubleml.utils._checks import (
+    _check_external_predictions,
+    _check_sample_splitting,
+    _check_score,
+    _check_trimming,
+    _check_weights,
+)
 from doubleml.utils._descriptive import generate_summary
 from doubleml.utils._sensitivity import _compute_sensitivity_bias
 from doubleml.utils.gain_statistics import gain_statistics
@@ -383,6 +389,15 @@ class DoubleMLAPOS:
         if external_predictions is not None:
             self._check_external_predictions(external_predictions)
             ext_pred_dict = self._rename_external_predictions(external_predictions)
+            # check the predictions for all levels before any of the models is fitted
+            for model, treatment_level in zip(self.modellist, self.treatment_levels):
+                _check_external_predictions(
+                    external_predictions=ext_pred_dict[treatment_level],
+                    valid_treatments=self._dml_data.d_cols,
+                    valid_learners=model.params_names,
+                    n_obs=self._dml_data.n_obs,
+                    n_rep=self.n_rep,
+                )
         else:
             ext_pred_dict = None
 
-- 
2.43.0


From 5008612e2e616b688ce51e0a71e9c207888f4dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:23 +0000
Subject: [PATCH 39/39] fix: instrument columns named like a learner (e.g.
 ml_r) raised AssertionError in the nuisance loss of PLIV

---
 doubleml/double_ml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 8073789..727543d 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1125,7 +1125,7 @@ class DoubleML(ABC):
         self._is_classifier = {key: False for key in self.params_names}
         for learner in self.params_names:
             # check if the learner is a classifier
-            learner_keys = [key for key in self._learner.keys() if key in learner]
+            learner_keys = [key for key in self._learner.keys() if learner.startswith(key)]
             assert len(learner_keys) == 1
             self._is_classifier[learner] = self._check_learner(
                 self._learner[learner_keys[0]], learner, regressor=True, classifier=True
@@ -1134,7 +1134,7 @@ class DoubleML(ABC):
             if targets[learner] is None:
                 self._nuisance_loss[learner][self._i_rep, self._i_treat] = np.nan
             else:
-                learner_keys = [key for key in self._learner.keys() if key in learner]
+                learner_keys = [key for key in self._learner.keys() if learner.startswith(key)]
                 assert len(learner_keys) == 1
 
                 if self._is_classifier[learner]:
-- 
2.43.0

