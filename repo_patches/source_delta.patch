From b44622dfa6c5bf7515f56a81654708122576859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 01/50] fix: scale columns in the solver with the multipliers
 used to undo the scaling

tabmat and glum disagreed on which columns count as constant (1e-7 versus
10*sqrt(eps)). Columns whose standard deviation fell in between, e.g. below
3.4e-3 in single precision, were standardized but never unstandardized, so
their coefficients came out wrong by a factor of their standard deviation.
---
 src/glum/_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 320cd52..8ef3b38 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -249,6 +249,10 @@ def standardize(
 
     if col_stds is not None:
         inv_col_stds = _one_over_var_inf_to_val(col_stds, 1.0)
+        # tabmat has its own cutoff for (numerically) constant columns. Use the
+        # multipliers that are applied to the penalties, bounds and coefficients,
+        # so that the scaling of the matrix is undone exactly in unstandardize.
+        X = tm.StandardizedMatrix(X.mat, -col_means * inv_col_stds, inv_col_stds)
         # We copy the bounds when multiplying here so the we avoid
         # side effects.
         if lower_bounds is not None:
-- 
2.43.0


From 65f921fd6193dacf4574985077c1d51876e3096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 02/50] fix: let wald_test default r to zero when the
 hypothesis is given as R

---
 src/glum/_glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a7f0fd2..63f2f22 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1214,7 +1214,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         }
 
         if R is not None:
-            return self._wald_test_matrix(R=R, r=np.asarray(r), **kwargs)
+            return self._wald_test_matrix(
+                R=R, r=None if r is None else np.asarray(r), **kwargs
+            )
         if features is not None:
             return self._wald_test_feature_names(features=features, values=r, **kwargs)
         if terms is not None:
-- 
2.43.0


From 3030e1a1874da275b0efa0af9648047ec647c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 03/50] fix: accept arbitrary cluster labels in clustered
 covariance matrices

---
 src/glum/_glm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 63f2f22..5750f4a 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3336,9 +3336,10 @@ def setup_p2(
 
 def _group_sum(groups: np.ndarray, data: tm.MatrixBase):
     """Sum over groups."""
-    ngroups = len(np.unique(groups))
+    labels, codes = np.unique(groups, return_inverse=True)
+    ngroups = len(labels)
     out = np.empty((ngroups, data.shape[1]))
-    eye_n = sps.eye(ngroups, format="csc")[:, groups]
+    eye_n = sps.eye(ngroups, format="csc")[:, codes]
     for i in range(data.shape[1]):
         out[:, i] = safe_toarray(eye_n @ data.getcol(i).unpack()).ravel()
     return out
-- 
2.43.0


From bfa2c7496f192587ac16be6ac0c9fb7f8591e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 04/50] fix: do not carry state of an earlier fit into a
 refitted estimator

---
 src/glum/_glm.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 5750f4a..a61f1eb 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1975,6 +1975,22 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         Union[str, np.ndarray, Any],
         Union[str, np.ndarray, Any],
     ]:
+        # Not every fit sets these attributes, so a refit must not find the ones of
+        # an earlier fit (e.g. the formula or the categories of other data).
+        for attr in (
+            "X_model_spec_",
+            "y_model_spec_",
+            "_categorical_levels_",
+            "_feature_dtypes_",
+            "has_missing_category_",
+            "_info_criteria",
+            "_alphas",
+            "coef_path_",
+            "intercept_path_",
+        ):
+            if hasattr(self, attr):
+                delattr(self, attr)
+
         dtype = [np.float64, np.float32]
         stype = ["csc"] if self.solver == "irls-cd" else ["csc", "csr"]
 
-- 
2.43.0


From 00c66c62414d64586747479d18ce0ca2ceb30bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 05/50] fix: accept any array-like target in score and do not
 truncate scalar weights

---
 src/glum/_glm.py        | 3 ++-
 src/glum/_validation.py | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index a61f1eb..4d1ed68 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -989,7 +989,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if sample_weight is None:
             return mu
 
-        sample_weight = check_weights(sample_weight, X.shape[0], X.dtype)
+        sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
 
         return mu * sample_weight
 
@@ -1785,6 +1785,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         float
             D^2 of self.predict(X) w.r.t. y.
         """
+        y = skl.utils.column_or_1d(y)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
         mu = self.predict(X, offset=offset, context=context)
diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index a6b2c6d..38ab80b 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -195,6 +195,8 @@ def check_weights(
     if np.isscalar(sample_weight):
         if sample_weight <= 0:  # type: ignore
             raise ValueError("Sample weights must be non-negative.")
+        if not np.issubdtype(dtype, np.floating):  # do not truncate the weight
+            dtype = np.float64
         return np.full(n_samples, sample_weight, dtype=dtype)
 
     sample_weight = skl.utils.check_array(
-- 
2.43.0


From ef0c2e172d7274945720f71f5b36c78879895b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 06/50] fix: apply weights and offsets per row when predicting
 at several alphas

---
 src/glum/_glm.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4d1ed68..7cbe52e 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -907,6 +907,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 f"is expecting {self.n_features_in_} features as input."
             )
 
+        if offset is not None:
+            offset = np.asarray(offset)
+
         if alpha_index is None:
             xb = X @ coef_path + intercept_path
             if offset is not None:
@@ -921,7 +924,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 _xb.append(X @ coef_path[idx] + intercept_path[idx])  # type: ignore
             xb = np.stack(_xb, axis=1)
             if offset is not None:
-                xb += np.asanyarray(offset)[:, np.newaxis]
+                xb += offset[..., np.newaxis]
 
         return xb
 
@@ -991,6 +994,9 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
         sample_weight = check_weights(sample_weight, mu.shape[0], mu.dtype)
 
+        if mu.ndim == 2:  # one column per alpha
+            sample_weight = sample_weight[:, np.newaxis]
+
         return mu * sample_weight
 
     def coef_table(
-- 
2.43.0


From f2c4abf29823e996d818726910a4c2d6ba0b79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 07/50] fix: give weights and scalar offsets the precision of X
 when fitting

---
 src/glum/_glm.py        | 2 +-
 src/glum/_validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 7cbe52e..eb68574 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2168,7 +2168,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             y.shape[0],  # type: ignore
             X.dtype,
             force_all_finite=force_all_finite,
-        )
+        ).astype(X.dtype, copy=False)
 
         offset = check_offset(offset, y.shape[0], X.dtype)  # type: ignore
 
diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 38ab80b..e20e26e 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -163,7 +163,7 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
-        return np.full(n_rows, offset)
+        return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
         offset,
-- 
2.43.0


From 163c11858eeee0d8153587a23265d602b446ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 08/50] fix: compute covariance matrices for integer and
 single-precision data

---
 src/glum/_glm.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index eb68574..c737830 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1635,11 +1635,18 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             if nw.dependencies.is_into_dataframe(X):
                 X = self._convert_from_df(X, context=capture_context(context))
 
+            if (
+                not isinstance(X, tm.CategoricalMatrix)
+                and hasattr(X, "dtype")
+                and np.issubdtype(X.dtype, np.integer)
+            ):
+                X = X.astype(np.float64)  # as in fit
+
             X, y = check_X_y_tabmat_compliant(
                 X,
                 y,
                 accept_sparse=["csr", "csc", "coo"],
-                dtype="numeric",
+                dtype=[np.float64, np.float32],
                 copy=self._should_copy_X(),
                 ensure_2d=True,
                 allow_nd=False,
@@ -1674,8 +1681,14 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 method="pearson",
             )
 
+        # mixed precision is not supported by the matrix products below
+        y = np.asarray(y, dtype=X.dtype)
+        mu = np.asarray(mu, dtype=X.dtype)
+        sample_weight = np.asarray(sample_weight, dtype=X.dtype)
+        dispersion = X.dtype.type(dispersion)
+
         if (
-            np.linalg.cond(safe_toarray(X.sandwich(np.ones(X.shape[0]))))
+            np.linalg.cond(safe_toarray(X.sandwich(np.ones_like(y))))
             > 1 / sys.float_info.epsilon**2
         ):
             raise np.linalg.LinAlgError(
-- 
2.43.0


From a17ac9c24647751ffd71b1adb920ec8174a72e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 09/50] fix: accept any array-like data in the information
 criteria

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index c737830..160a67e 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3008,7 +3008,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
 
         ddof = np.sum(np.abs(self.coef_) > np.finfo(self.coef_.dtype).eps)  # type: ignore
         k_params = ddof + self.fit_intercept
-        nobs = X.shape[0]
+        y = skl.utils.column_or_1d(y)
+        nobs = y.shape[0]
 
         if nobs != self._num_obs:
             raise ValueError(
-- 
2.43.0


From 8e5cc109f788758489ef4df0f49363b77c43d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 10/50] fix: reject family and link names that merely contain a
 valid one

---
 src/glum/_glm.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 160a67e..b26aba3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3199,12 +3199,14 @@ def get_family(
     if family in name_to_dist:
         return name_to_dist[family]
 
-    custom_tweedie = re.search(r"tweedie\s?\((.+)\)", family)
+    custom_tweedie = re.fullmatch(r"tweedie\s?\((.+)\)", family)
 
     if custom_tweedie:
         return TweedieDistribution(float(custom_tweedie.group(1)))
 
-    custom_negative_binomial = re.search(r"negative.binomial\s?\((.+)\)", family)
+    custom_negative_binomial = re.fullmatch(
+        r"negative\.binomial\s?\((.+)\)", family
+    )
 
     if custom_negative_binomial:
         return NegativeBinomialDistribution(float(custom_negative_binomial.group(1)))
@@ -3253,7 +3255,7 @@ def get_link(link: Union[str, Link], family: ExponentialDispersionModel) -> Link
 
     if link in mapping:
         return mapping[link]
-    if custom_tweedie := re.search(r"tweedie\s?\((.+)\)", link):
+    if custom_tweedie := re.fullmatch(r"tweedie\s?\((.+)\)", link):
         return TweedieLink(float(custom_tweedie.group(1)))
 
     raise ValueError(
-- 
2.43.0


From 693e5f03171a9dae38168f9c6dee6bcfbe1f1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 11/50] fix: evaluate two-sided formulas with the caller's
 context in covariance_matrix

---
 src/glum/_glm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b26aba3..b064891 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1629,7 +1629,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 return self.covariance_matrix_
 
             if hasattr(self, "y_model_spec_"):
-                y = self.y_model_spec_.get_model_matrix(X).toarray().ravel()
+                y = self.y_model_spec_.get_model_matrix(
+                    X, context=capture_context(context)
+                )
+                y = y.toarray().ravel()
                 # This has to go first because X is modified in the next line
 
             if nw.dependencies.is_into_dataframe(X):
-- 
2.43.0


From e39215d379ffc0b799e88ec3ae8601b0127b1b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 12/50] fix: resolve integer formula contexts in the caller's
 frame for every method

---
 src/glum/_glm.py    | 16 +++++++++++-----
 src/glum/_glm_cv.py |  6 ++++--
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index b064891..d524b7c 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -876,7 +876,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             alpha_index=alpha_index,
             coef_path=self.coef_path_ if use_path else self.coef_,
             intercept_path=self.intercept_path_ if use_path else self.intercept_,
-            context=context,
+            context=capture_context(context),
         )
 
     def _compute_linear_predictor(
@@ -1810,7 +1810,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         y = skl.utils.column_or_1d(y)
         sample_weight = check_weights(sample_weight, y.shape[0], y.dtype)
 
-        mu = self.predict(X, offset=offset, context=context)
+        mu = self.predict(X, offset=offset, context=capture_context(context))
         y_mean: float = np.average(y, weights=sample_weight)
 
         dev = self.family_instance.deviance(y, mu, sample_weight=sample_weight)
@@ -3070,7 +3070,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("aic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "aic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def aicc(
         self,
@@ -3109,7 +3111,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        aicc = self._get_info_criteria("aicc", X, y, sample_weight, context=context)
+        aicc = self._get_info_criteria(
+            "aicc", X, y, sample_weight, context=capture_context(context)
+        )
 
         if not aicc:
             msg = "Model degrees of freedom should be more than training data points."
@@ -3153,7 +3157,9 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             no context is added. Set ``context=0`` to make the calling scope
             available.
         """
-        return self._get_info_criteria("bic", X, y, sample_weight, context=context)
+        return self._get_info_criteria(
+            "bic", X, y, sample_weight, context=capture_context(context)
+        )
 
     def _get_info_criteria(
         self,
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 612ef4f..5e1a212 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -478,7 +478,9 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         alpha_index = self._resolve_alpha_index(alpha_index, alpha)
 
         if alpha_index is None:
-            return super().linear_predictor(X, offset, context=context)
+            return super().linear_predictor(
+                X, offset, context=capture_context(context)
+            )
 
         return self._compute_linear_predictor(
             X,
@@ -486,7 +488,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
             alpha_index=alpha_index,
             coef_path=self._refit_coef_path,
             intercept_path=self._refit_intercept_path,
-            context=context,
+            context=capture_context(context),
         )
 
     def _validate_hyperparameters(self) -> None:
-- 
2.43.0


From 1cd91540e3730c8f2008141d9ccf7d474884c284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 13/50] fix: accept double-precision P1 with single-precision
 data

---
 src/glum/_glm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index d524b7c..af5086b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3295,7 +3295,7 @@ def setup_p1(
     else:
         P1 = np.atleast_1d(P1)
         try:
-            P1 = P1.astype(dtype, casting="safe", copy=False)  # type: ignore
+            P1 = P1.astype(dtype, casting="same_kind", copy=False)  # type: ignore
         except TypeError as e:
             raise TypeError(
                 "The given P1 cannot be converted to a numeric array; "
-- 
2.43.0


From a74ff5a597aac18a78f725233d58232b26c70254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 14/50] fix: let trust-constr fit single-precision sparse data

---
 src/glum/_solvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index d7e6d0c..3afe5bf 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -6,6 +6,7 @@ from dataclasses import InitVar, dataclass
 from typing import Any, Optional, Union
 
 import numpy as np
+import tabmat as tm
 from scipy import linalg, sparse
 from scipy.optimize import SR1, LinearConstraint, fmin_l_bfgs_b, minimize
 from sklearn.exceptions import ConvergenceWarning
@@ -857,6 +858,9 @@ def _get_obj_and_derivative(
     link: Link,
     offset: np.ndarray = None,
 ):
+    # Some optimizers upcast, but only dense matrices support mixed-precision products.
+    if not isinstance(getattr(X, "mat", X), tm.DenseMatrix):
+        coef = coef.astype(X.dtype, copy=False)
     mu, devp = family._mu_deviance_derivative(coef, X, y, sample_weight, link, offset)
     dev = family.deviance(y, mu, sample_weight)
     intercept = coef.size == X.shape[1] + 1
-- 
2.43.0


From 27af1e0d881f006af4e1723e8e1b5a9bcdc9c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 15/50] fix: warn when trust-constr stops short of the gradient
 tolerance

---
 src/glum/_solvers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/glum/_solvers.py b/src/glum/_solvers.py
index 3afe5bf..3ad042a 100644
--- a/src/glum/_solvers.py
+++ b/src/glum/_solvers.py
@@ -985,6 +985,13 @@ def _trust_constr_solver(
             f"trust-constr failed with message: {res['message']}",
             ConvergenceWarning,
         )
+    elif gtol is not None and res["optimality"] > gtol:
+        # terminated because the trust region became smaller than ``xtol``
+        warnings.warn(
+            "trust-constr stopped before reaching the gradient tolerance "
+            f"(optimality {res['optimality']:.3e} > {gtol:.3e}): {res['message']}",
+            ConvergenceWarning,
+        )
 
     return res["x"], res["nit"], -1, None
 
-- 
2.43.0


From 51853ea9dcd6aade2915ec73afb5c085d07ab3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 16/50] fix: recognise constant sparse columns with a large
 value as constant

---
 src/glum/_utils.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 8ef3b38..c3a24ee 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -248,6 +248,7 @@ def standardize(
     X, col_means, col_stds = X.standardize(sample_weight, center_predictors, True)
 
     if col_stds is not None:
+        col_stds = _refine_col_stds(X.mat, sample_weight, col_stds)
         inv_col_stds = _one_over_var_inf_to_val(col_stds, 1.0)
         # tabmat has its own cutoff for (numerically) constant columns. Use the
         # multipliers that are applied to the penalties, bounds and coefficients,
@@ -304,6 +305,28 @@ def unstandardize(  # noda D
     return intercept, coef
 
 
+def _refine_col_stds(
+    X: tm.MatrixBase, sample_weight: np.ndarray, col_stds: np.ndarray
+) -> np.ndarray:
+    """
+    Recompute the standard deviations of columns with a relatively large mean.
+
+    For sparse columns, tabmat computes the variance as the difference between the
+    mean of the squares and the squared mean. If the mean is much larger than the
+    standard deviation, only rounding noise is left of that difference and constant
+    columns would not be recognized as such.
+    """
+    col_means = X.transpose_matvec(sample_weight)
+    cutoff = 100 * np.sqrt(np.finfo(col_stds.dtype).eps)
+    for j in np.flatnonzero(col_stds < cutoff * np.abs(col_means)):
+        unit = np.zeros(X.shape[1], dtype=X.dtype)
+        unit[j] = 1
+        col = np.asarray(X.matvec(unit), dtype=np.float64)
+        col_mean = np.average(col, weights=sample_weight)
+        col_stds[j] = np.sqrt(np.average((col - col_mean) ** 2, weights=sample_weight))
+    return col_stds
+
+
 def _one_over_var_inf_to_val(arr: np.ndarray, val: float) -> np.ndarray:
     """
     Return 1/arr unless the values are zeros.
-- 
2.43.0


From e4073fc7fb20e445f4d2f949e32aaa293965b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 17/50] fix: keep the category order in monotonic constraints

---
 src/glum/_formula.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 40c381c..139b5ba 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -111,15 +111,18 @@ def _group_columns_by_factor(
     return dict(groups)
 
 
-def _sort_key(member: tuple[int, str | None]) -> tuple[float, str]:
-    """Sort key for (col_idx, factor_idx): numeric first, then lexicographic."""
-    _, idx = member
-    if idx is None:
-        return (0.0, "")
+def _sort_members(
+    members: list[tuple[int, str | None]],
+) -> list[tuple[int, str | None]]:
+    """Sort (col_idx, factor_idx) by index if all are numeric.
+
+    Other indices are the labels of a categorical. Its columns are already in the
+    order of the categories, which need not be the lexicographic order of the labels.
+    """
     try:
-        return (float(idx), "")
+        return sorted(members, key=lambda member: float(member[1] or 0))
     except ValueError:
-        return (float("inf"), idx)
+        return members
 
 
 def _build_monotonic_constraints(
@@ -159,8 +162,7 @@ def _build_monotonic_constraints(
         sign = 1.0 if direction == "increasing" else -1.0
 
         for group_key, members in groups.items():
-            if len(members) > 1:
-                members.sort(key=_sort_key)
+            members = _sort_members(members)
             if len(members) == 1:
                 row = np.zeros(n_features)
                 row[members[0][0]] = -sign
-- 
2.43.0


From ced3d808056ebb1a2674bfbe05180a1bc5222f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:30 +0000
Subject: [PATCH 18/50] fix: accept start values for a model with a single
 column

---
 src/glum/_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index c3a24ee..a667ad5 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -280,10 +280,10 @@ def standardize_warm_start(  # noda D
     coef: np.ndarray, col_means: np.ndarray, col_stds: Optional[np.ndarray]
 ) -> None:
     if col_stds is None:
-        coef[0] += np.squeeze(col_means).dot(coef[1:])
+        coef[0] += np.ravel(col_means).dot(coef[1:])
     else:
         coef[1:] *= col_stds
-        coef[0] += np.squeeze(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
+        coef[0] += np.ravel(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
             coef[1:]
         )
 
-- 
2.43.0


From 0887fe39c4bc7f93dbd8b58b80e9410e4f2b3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 19/50] fix: clip start values to bounds on the scale of the
 coefficients

---
 src/glum/_glm.py    | 19 ++++++++++++-------
 src/glum/_glm_cv.py | 12 +++++++++++-
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index af5086b..90dc91b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -254,6 +254,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         col_means: np.ndarray,
         col_stds: Optional[np.ndarray],
         dtype,
+        lower_bounds: Optional[np.ndarray] = None,
+        upper_bounds: Optional[np.ndarray] = None,
     ) -> np.ndarray:
         if self.warm_start and hasattr(self, "coef_"):
             coef = self.coef_  # type: ignore
@@ -297,22 +299,23 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
         # If starting values are outside the specified bounds (if set),
-        # bring the starting value exactly at the bound.
+        # bring the starting value exactly at the bound. The bounds passed here
+        # are on the same (standardized) scale as the coefficients.
         idx = int(self.fit_intercept)
-        if self.lower_bounds is not None:
-            if np.any(coef[idx:] < self.lower_bounds):
+        if lower_bounds is not None:
+            if np.any(coef[idx:] < lower_bounds):
                 warnings.warn(
                     "lower_bounds above starting value. Setting the starting values "
                     "to max(start_params, lower_bounds)."
                 )
-                coef[idx:] = np.maximum(coef[idx:], self.lower_bounds)
-        if self.upper_bounds is not None:
-            if np.any(coef[idx:] > self.upper_bounds):
+                coef[idx:] = np.maximum(coef[idx:], lower_bounds)
+        if upper_bounds is not None:
+            if np.any(coef[idx:] > upper_bounds):
                 warnings.warn(
                     "upper_bounds below starting value. Setting the starting values "
                     "to min(start_params, upper_bounds)."
                 )
-                coef[idx:] = np.minimum(coef[idx:], self.upper_bounds)
+                coef[idx:] = np.minimum(coef[idx:], upper_bounds)
 
         return coef
 
@@ -2873,6 +2876,8 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             self.col_means_,
             self.col_stds_,
             dtype=[np.float64, np.float32],
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         #######################################################################
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 5e1a212..48ae51e 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -733,6 +733,8 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 self.col_means_,
                 self.col_stds_,
                 dtype=[np.float64, np.float32],
+                lower_bounds=lower_bounds,
+                upper_bounds=upper_bounds,
             )
 
             if self.check_input:
@@ -863,7 +865,15 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
         coef = self._get_start_coef(
-            X, y, sample_weight, offset, self.col_means_, self.col_stds_, dtype=X.dtype
+            X,
+            y,
+            sample_weight,
+            offset,
+            self.col_means_,
+            self.col_stds_,
+            dtype=X.dtype,
+            lower_bounds=lower_bounds,
+            upper_bounds=upper_bounds,
         )
 
         if len(l1_ratio) > 1:
-- 
2.43.0


From 76ae54649efb39fe27deb85636e2fdbbde6a495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:44 +0000
Subject: [PATCH 20/50] fix: do not reorder numeric category labels in
 monotonic constraints

---
 src/glum/_formula.py | 7 ++++++-
 src/glum/_glm.py     | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glum/_formula.py b/src/glum/_formula.py
index 139b5ba..a8d5ced 100644
--- a/src/glum/_formula.py
+++ b/src/glum/_formula.py
@@ -131,12 +131,16 @@ def _build_monotonic_constraints(
     n_features: int | None = None,
     *,
     separator: str = ":",
+    sort_members: bool = True,
 ) -> tuple[np.ndarray, np.ndarray]:
     """Build ``(A_ineq, b_ineq)`` enforcing monotonicity on ordered terms.
 
     Multi-column terms (splines, ordered categoricals) get consecutive-pair
     constraints; single-column terms get a sign constraint.  Interactions
     are constrained within each level of the other factor(s).
+
+    Set ``sort_members=False`` if *feature_names* are already in the order of the
+    terms (e.g. of the categories, whose labels may be numbers in another order).
     """
     if n_features is None:
         n_features = len(feature_names)
@@ -162,7 +166,8 @@ def _build_monotonic_constraints(
         sign = 1.0 if direction == "increasing" else -1.0
 
         for group_key, members in groups.items():
-            members = _sort_members(members)
+            if sort_members:
+                members = _sort_members(members)
             if len(members) == 1:
                 row = np.zeros(n_features)
                 row[members[0][0]] = -sign
diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 90dc91b..cebe4ee 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1982,6 +1982,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             self.feature_names_,
             factor_constraints,
             separator=self.interaction_separator,
+            sort_members=False,
         )
 
     def _set_up_and_check_fit_args(
-- 
2.43.0


From e793ba76e8d419f76af7ab6a33d0602d11552d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 21/50] fix: include negative targets in the deviance of
 Tweedie distributions with negative power

---
 src/glum/_functions.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index deab5ae..b5de219 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -382,9 +382,11 @@ def tweedie_deviance(
         mu1mp = mu[i] ** (1 - p)
         D += weights[i] * (mu1mp * mu[i]) / (2 - p)
 
+        yo1mp = y[i] / (1 - p)
+        D += -weights[i] * yo1mp * mu1mp
+
         if y[i] > 0:
-            yo1mp = y[i] / (1 - p)
-            D += weights[i] * ((y[i] ** (1 - p)) * yo1mp / (2 - p) - yo1mp * mu1mp)
+            D += weights[i] * (y[i] ** (1 - p)) * yo1mp / (2 - p)
 
     return 2 * D
 
-- 
2.43.0


From 595578001103e59f84eb3c4bc7c7260886232e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:34 +0000
Subject: [PATCH 22/50] fix: evaluate unit deviances with the double-precision
 power or theta

---
 src/glum/_distribution.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index bb6f8a0..7f4b2a8 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -650,12 +650,14 @@ class TweedieDistribution(ExponentialDispersionModel):
         elif self.power == 3:  # inverse Gaussian distribution
             return ((y / mu - 1) ** 2) / y
         else:
-            mu1mp = mu ** (1 - self.power)
+            # the single-precision power would make its functions imprecise
+            p = float(self.power)
+            mu1mp = mu ** (1 - p)
             return 2 * (
-                (np.maximum(y, 0) ** (2 - self.power))
-                / ((1 - self.power) * (2 - self.power))
-                - y * mu1mp / (1 - self.power)
-                + mu * mu1mp / (2 - self.power)
+                (np.maximum(y, 0) ** (2 - p))
+                / ((1 - p) * (2 - p))
+                - y * mu1mp / (1 - p)
+                + mu * mu1mp / (2 - p)
             )
 
     def _rowwise_gradient_hessian(
@@ -1412,7 +1414,8 @@ class NegativeBinomialDistribution(ExponentialDispersionModel):
         return negative_binomial_deviance(y, sample_weight, mu, theta=float(theta))
 
     def unit_deviance(self, y, mu):  # noqa D
-        theta = self.theta
+        # the single-precision theta would make its reciprocal imprecise
+        theta = float(self.theta)
 
         r = 1.0 / theta
 
-- 
2.43.0


From 2efa344835ba5c4edfbbc1bc871ad35e3a3b31b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:51 +0000
Subject: [PATCH 23/50] fix: keep the second derivative of the inverse cloglog
 finite for large linear predictors

---
 src/glum/_link.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/glum/_link.py b/src/glum/_link.py
index 34f36cf..7cbe089 100644
--- a/src/glum/_link.py
+++ b/src/glum/_link.py
@@ -279,4 +279,6 @@ class CloglogLink(Link):
         return np.exp(lin_pred - np.exp(lin_pred))
 
     def inverse_derivative2(self, lin_pred):  # noqa D
-        return -np.exp(lin_pred - np.exp(lin_pred)) * np.expm1(lin_pred)
+        exp_lin_pred = np.exp(lin_pred)
+        # Keep both exponents together: exp(lin_pred) may overflow on its own.
+        return np.exp(lin_pred - exp_lin_pred) - np.exp(2 * lin_pred - exp_lin_pred)
-- 
2.43.0


From 0b820e78ccc4fdbe694b4e8182843b060a1cf547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:29 +0000
Subject: [PATCH 24/50] fix: allow every link for Tweedie(1.5) in
 GeneralizedLinearRegressorCV

---
 src/glum/_glm_cv.py | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 48ae51e..99e25ac 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -11,7 +11,7 @@ from ._distribution import ExponentialDispersionModel
 from ._formula import capture_context
 from ._glm import GeneralizedLinearRegressorBase, setup_p1, setup_p2
 from ._linalg import _safe_lin_pred, is_pos_semidef
-from ._link import Link, LogLink
+from ._link import Link
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
 from ._validation import check_bounds
@@ -590,11 +590,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         #########
         # Checks
         self._set_up_for_fit(y)
-        if (
-            hasattr(self._family_instance, "_power")
-            and self._family_instance._power == 1.5  # type: ignore
-        ):
-            assert isinstance(self._link_instance, LogLink)
 
         l1_ratio = np.atleast_1d(self.l1_ratio)
 
@@ -687,12 +682,6 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 )
                 return self._family_instance.deviance(y_test, mu, sample_weight=w_test)
 
-            if (
-                hasattr(self._family_instance, "_power")
-                and self._family_instance._power == 1.5
-            ):
-                assert isinstance(self._link_instance, LogLink)
-
             P1_no_alpha = setup_p1(P1, X, X.dtype, 1, l1)
             P2_no_alpha = setup_p2(P2, X, _stype, X.dtype, 1, l1)
 
-- 
2.43.0


From ea406b20072706aa1e52d37d17743e7e8bf200f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:53 +0000
Subject: [PATCH 25/50] fix: accept two-dimensional penalties when expanding
 leaves the number of columns unchanged

---
 src/glum/_utils.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index a667ad5..03fe561 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -144,17 +144,10 @@ def expand_categorical_penalties(
         penalty = np.asanyarray(penalty)
 
     if penalty.shape[0] == X.shape[1]:
-        if penalty.ndim == 2:
-            raise ValueError(
-                "When the penalty is two-dimensional, it must have the "
-                "same length as the number of columns in the design "
-                "matrix `X` after expanding categorical columns."
-            )
-
-        expanded_penalty = []  # type: ignore
+        lengths = []  # number of columns each column of X is expanded to
         backend = nw.get_native_namespace(X).__name__
 
-        for element, (column, dt) in zip(penalty, X.schema.items()):
+        for column, dt in X.schema.items():
             if isinstance(dt, (nw.Enum, nw.Categorical)):
                 # For Polars Categorical (not Enum), avoid .cat.get_categories()
                 # due to string cache issues. Enum is safe to use.
@@ -163,12 +156,22 @@ def expand_categorical_penalties(
                 else:
                     num_categories = len(X[column].cat.get_categories())
 
-                length = num_categories + has_missing_category[column] - drop_first
-                expanded_penalty.extend(element for _ in range(length))
+                lengths.append(
+                    num_categories + has_missing_category[column] - drop_first
+                )
             else:
-                expanded_penalty.append(element)
+                lengths.append(1)
+
+        if penalty.ndim == 2:
+            if sum(lengths) == penalty.shape[0]:
+                return penalty
+            raise ValueError(
+                "When the penalty is two-dimensional, it must have the "
+                "same length as the number of columns in the design "
+                "matrix `X` after expanding categorical columns."
+            )
 
-        return np.array(expanded_penalty)
+        return np.repeat(penalty, lengths)
 
     else:
         return penalty
-- 
2.43.0


From c6bc7a9ba8fa9f5f982a850f4e8ad95e1634220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:58 +0000
Subject: [PATCH 26/50] fix: take the offset into account when guessing the
 intercept for the alpha grid

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index cebe4ee..928e84e 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -489,6 +489,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 sample_weight=w,
                 link=self._link_instance,
                 distribution=self._family_instance,
+                eta=offset,
             )
         else:
             intercept_offset = 0
-- 
2.43.0


From a97a0109a81146c373dd55d6fb219b1710384866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 27/50] fix: accept an array of alphas with alpha_search

---
 src/glum/_glm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 928e84e..4689d55 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -397,8 +397,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                         np.all(np.asarray(self.l1_ratio) == 0)
                         or (
                             hasattr(self, "alpha")
-                            and self.alpha == 0
                             and not self.alpha_search
+                            and self.alpha == 0
                         )
                     )
                 ):
@@ -406,7 +406,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 elif np.all(np.asarray(self.l1_ratio) == 0):
                     self._solver = "irls-ls"
                 elif (
-                    hasattr(self, "alpha") and self.alpha == 0 and not self.alpha_search
+                    hasattr(self, "alpha") and not self.alpha_search and self.alpha == 0
                 ):
                     self._solver = "irls-ls"
                 else:
-- 
2.43.0


From 1d31c47bfd47f448bcd9abd9d5b97601d136cddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 28/50] fix: compute information criteria for models fitted
 with alpha_search

---
 src/glum/_glm.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 4689d55..e3a7a19 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -3183,9 +3183,10 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
         if not hasattr(self, "_info_criteria"):
             self._compute_information_criteria(X, y, sample_weight, context=context_)
 
-        if (
-            self.alpha is None or (self.alpha is not None and self.alpha > 0)
-        ) and self.l1_ratio < 1.0:
+        # with alpha_search, the criteria describe the last model of the path
+        alpha = self._alphas[-1] if self.alpha_search else self.alpha
+
+        if (alpha is None or alpha > 0) and self.l1_ratio < 1.0:
             warnings.warn(
                 "There is no general definition for the model's degrees of "
                 + f"freedom under L2 (ridge) regularisation. The {crit} "
-- 
2.43.0


From 0a96294fe0b7e5059c532fbf780f93efeef89d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 29/50] fix: do not sort the indices of the caller's sparse
 matrix in place

---
 src/glum/_glm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index e3a7a19..17a81f7 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1663,6 +1663,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
             if isinstance(X, np.ndarray):
                 X = tm.DenseMatrix(X)
             if sparse.issparse(X) and not isinstance(X, tm.SparseMatrix):
+                if X.format == "csc" and not X.has_sorted_indices:
+                    X = X.sorted_indices()  # tabmat would sort X in place
                 X = tm.SparseMatrix(X)
 
             sample_weight = check_weights(
@@ -2201,7 +2203,10 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         weights_sum: float = np.sum(sample_weight)  # type: ignore
         sample_weight = sample_weight / weights_sum
 
-        # Convert to wrapper matrix types
+        # Convert to wrapper matrix types. tabmat would sort the indices of the
+        # caller's matrix in place.
+        if sparse.issparse(X) and X.format == "csc" and not X.has_sorted_indices:  # type: ignore
+            X = X.sorted_indices()  # type: ignore
         X = tm.as_tabmat(X)
 
         self.feature_names_ = X.get_names(type="column", missing_prefix="_col_")  # type: ignore
-- 
2.43.0


From 893f7c5fcdb0098de33e695afbc281a5166e4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:38 +0000
Subject: [PATCH 30/50] fix: keep single precision when alpha is a numpy scalar
 or array

---
 src/glum/_glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 17a81f7..209b10b 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -688,6 +688,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
+            alpha = float(alpha)  # a numpy scalar would change the precision
             P1 = P1_no_alpha * alpha
             P2 = P2_no_alpha * alpha
 
@@ -2940,7 +2941,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             if self.alpha is None:
                 _alpha = 0.0
             else:
-                _alpha = self.alpha
+                _alpha = float(self.alpha)
             if _alpha > 0 and self.l1_ratio > 0 and self._solver != "irls-cd":
                 raise ValueError(
                     f"The chosen solver (solver={self._solver}) can't deal "
-- 
2.43.0


From c257b4dd9b35365c303205f26972245348d85db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:15 +0000
Subject: [PATCH 31/50] fix: give start values the precision of X and do not
 modify coef_ when warm starting

---
 src/glum/_glm.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 209b10b..162104d 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -258,10 +258,13 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         upper_bounds: Optional[np.ndarray] = None,
     ) -> np.ndarray:
         if self.warm_start and hasattr(self, "coef_"):
-            coef = self.coef_  # type: ignore
+            coef = np.array(
+                self.coef_,  # type: ignore
+                dtype=_float_itemsize_to_dtype[X.dtype.itemsize],
+            )
             intercept = self.intercept_  # type: ignore
             if self.fit_intercept:
-                coef = np.concatenate((np.array([intercept]), coef))
+                coef = np.concatenate((np.array([intercept], dtype=coef.dtype), coef))
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
 
@@ -283,7 +286,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 self.start_params,
                 accept_sparse=False,
                 ensure_2d=False,
-                dtype=dtype,
+                dtype=_float_itemsize_to_dtype[X.dtype.itemsize],
                 copy=True,
                 **{keyword_finiteness: True},
             )
-- 
2.43.0


From c3e36a5ee94aea42d6d83a49697ae4a3862c63e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 32/50] fix: judge positive semi-definiteness relative to the
 precision and scale of P2

---
 src/glum/_linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 9ccb4ea..0192da4 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -23,7 +23,7 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
 
     # 2d case
     # About -6e-7 for 32-bit, -1e-15 for 64-bit
-    epsneg = -10 * np.finfo(np.result_type(float, p.dtype)).epsneg
+    epsneg = -10 * np.finfo(np.result_type(np.float32, p.dtype)).epsneg
 
     if sparse.issparse(p):
         # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
@@ -45,7 +45,8 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
     else:  # dense
         eigenvalues = linalg.eigvalsh(p)
 
-    return np.all(eigenvalues >= epsneg)
+    # rounding errors are relative to the largest eigenvalue
+    return np.all(eigenvalues >= epsneg * max(1, np.max(np.abs(eigenvalues))))
 
 
 def _safe_lin_pred(
-- 
2.43.0


From 5d727d97bfc4ab8bec9b4ba0b60b57307c71fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 33/50] fix: only add the missing category to columns that had
 one during fitting

---
 src/glum/_glm.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 162104d..53946a3 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -345,9 +345,16 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 logs_emitted=logs_emitted,
             )
             if cat_missing_method_after_alignment == "convert":
+                # A feature name alone does not identify the columns with a missing
+                # category: the format need not contain the name of the column.
+                has_missing_category = getattr(self, "has_missing_category_", {})
                 df = add_missing_categories(
                     df=df,
-                    categorical_levels=self.categorical_levels_,
+                    categorical_levels={
+                        column: levels
+                        for column, levels in self.categorical_levels_.items()
+                        if has_missing_category.get(column, True)
+                    },
                     feature_names=self.feature_names_,
                     cat_missing_name=self.cat_missing_name,
                     categorical_format=self.categorical_format,
-- 
2.43.0


From df054b9b18843a3648457b995c81b01a767c3cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 34/50] fix: use cat_missing_name with formulas

---
 src/glum/_glm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 53946a3..eafbd8f 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -2071,6 +2071,7 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                     ensure_full_rank=self.drop_first,
                     categorical_format=self.categorical_format,
                     cat_missing_method=self.cat_missing_method,
+                    cat_missing_name=self.cat_missing_name,
                     interaction_separator=self.interaction_separator,
                     add_column_for_intercept=False,
                     context=context,
-- 
2.43.0


From 132aa86581b0753cd9e752fe9ebdc2f10f6c79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 35/50] fix: refuse L1 penalties with other solvers than
 irls-cd along a regularization path

---
 src/glum/_glm.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index eafbd8f..ad16524 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -695,6 +695,16 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         A_ineq: Optional[np.ndarray],
         b_ineq: Optional[np.ndarray],
     ) -> np.ndarray:
+        if (
+            self._solver != "irls-cd"
+            and np.any(np.asarray(alphas) > 0)
+            and np.any(np.asarray(P1_no_alpha) > 0)
+        ):
+            raise ValueError(
+                f"The chosen solver (solver={self._solver}) can't deal "
+                "with L1 penalties."
+            )
+
         self.coef_path_ = np.empty((len(alphas), len(coef)), dtype=X.dtype)
 
         for k, alpha in enumerate(alphas):
-- 
2.43.0


From 18ff5ee7fa7171f63fa45771b7967eb8b6eb2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 36/50] fix: check that upper bounds are not below lower bounds
 in GeneralizedLinearRegressorCV

---
 src/glum/_glm_cv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 99e25ac..73bfe92 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -631,6 +631,10 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         lower_bounds = check_bounds(self.lower_bounds, X.shape[1], X.dtype)
         upper_bounds = check_bounds(self.upper_bounds, X.shape[1], X.dtype)
 
+        if (lower_bounds is not None) and (upper_bounds is not None):
+            if np.any(lower_bounds > upper_bounds):
+                raise ValueError("Upper bounds must be higher than lower bounds.")
+
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
         elif self.A_ineq is not None and self.b_ineq is not None:
-- 
2.43.0


From 78cd2250616d21c6403146950d9cad27651ddd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 37/50] fix: say why negative alphas are refused

---
 src/glum/_glm_cv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 73bfe92..625b568 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -493,7 +493,7 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
     def _validate_hyperparameters(self) -> None:
         if self.alphas is not None and np.any(np.asarray(self.alphas) < 0):
-            raise ValueError
+            raise ValueError(f"alphas must be non-negative; got {self.alphas}")
         l1_ratio = np.asarray(self.l1_ratio)
         if (
             not np.issubdtype(l1_ratio.dtype, np.number)
-- 
2.43.0


From 5b74745a5dd560b5342e09dd5899c28b059c679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:30 +0000
Subject: [PATCH 38/50] fix: scale start values like the predictors without an
 intercept

---
 src/glum/_glm.py   | 5 +++++
 src/glum/_utils.py | 7 +++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index ad16524..548fe29 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -56,6 +56,7 @@ from ._typing import (
     WaldTestResult,
 )
 from ._utils import (
+    _one_over_var_inf_to_val,
     add_missing_categories,
     align_df_categories,
     expand_categorical_penalties,
@@ -267,6 +268,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
                 coef = np.concatenate((np.array([intercept], dtype=coef.dtype), coef))
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef /= _one_over_var_inf_to_val(col_stds, 1.0)
 
         elif self.start_params is None:
             if self.fit_intercept:
@@ -300,6 +303,8 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
 
             if self._center_predictors:
                 standardize_warm_start(coef, col_means, col_stds)  # type: ignore
+            elif col_stds is not None:
+                coef /= _one_over_var_inf_to_val(col_stds, 1.0)
 
         # If starting values are outside the specified bounds (if set),
         # bring the starting value exactly at the bound. The bounds passed here
diff --git a/src/glum/_utils.py b/src/glum/_utils.py
index 03fe561..2966554 100644
--- a/src/glum/_utils.py
+++ b/src/glum/_utils.py
@@ -285,10 +285,9 @@ def standardize_warm_start(  # noda D
     if col_stds is None:
         coef[0] += np.ravel(col_means).dot(coef[1:])
     else:
-        coef[1:] *= col_stds
-        coef[0] += np.ravel(col_means * _one_over_var_inf_to_val(col_stds, 1)).dot(
-            coef[1:]
-        )
+        penalty_mult = _one_over_var_inf_to_val(col_stds, 1.0)
+        coef[1:] /= penalty_mult
+        coef[0] += np.ravel(col_means * penalty_mult).dot(coef[1:])
 
 
 def unstandardize(  # noda D
-- 
2.43.0


From e3ad4f7c6fbf4596c664bdf653566f5192bfe6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:30 +0000
Subject: [PATCH 39/50] fix: Tweedie log-likelihood for small dispersions

For small dispersions relative to y ** (2 - power), the indices of the series
overflowed a C int (-inf instead of a finite log-likelihood) or, from 2 ** 53
on, stopped increasing, so that log_likelihood and the information criteria
of (nearly) perfectly fitting models never returned. Use the saddlepoint
approximation, which is accurate to 1e-8 there, and sum in double precision.
---
 src/glum/_functions.pyx | 60 ++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/src/glum/_functions.pyx b/src/glum/_functions.pyx
index b5de219..15cc801 100644
--- a/src/glum/_functions.pyx
+++ b/src/glum/_functions.pyx
@@ -1,14 +1,7 @@
 from cython cimport floating
 from cython.parallel import prange
 
-from libc.math cimport M_PI, ceil, exp, floor, lgamma, log
-
-ctypedef fused numeric:
-    short
-    int
-    long
-    float
-    double
+from libc.math cimport M_PI, ceil, exp, expm1, floor, lgamma, log
 
 # If an argument is readonly, that will fail with a typical floating[:]
 # memoryview. However, const floating[:] causes failures because currently,
@@ -413,6 +406,11 @@ cdef floating _tweedie_unit_loglikelihood(floating y, floating mu, floating powe
 
     if y == 0:
         return -(mu ** (2 - power)) / (dispersion * (2 - power))
+    elif not _j_max(y, power, dispersion) < 1e8:
+        # The series has too many terms, up to indices that cannot be
+        # represented, but the relative error of the saddlepoint approximation
+        # to the density is of the order of 1 / j_max.
+        return _tweedie_saddlepoint(y, mu, power, dispersion)
     else:
         theta = mu ** (1 - power)
         kappa = mu * theta / (2 - power)
@@ -420,14 +418,25 @@ cdef floating _tweedie_unit_loglikelihood(floating y, floating mu, floating powe
         normalization = _tweedie_normalization(y, power, dispersion)
         return (theta * y - kappa) / dispersion + normalization
 
-cdef floating _tweedie_normalization(floating y, floating power, floating dispersion) nogil:
+cdef double _tweedie_saddlepoint(double y, double mu, double power, double dispersion) nogil:
+    cdef double log_ratio = log(mu / y)
+    cdef double half_deviance = y ** (2 - power) * (
+        expm1((2 - power) * log_ratio) / (2 - power)
+        - expm1((1 - power) * log_ratio) / (1 - power)
+    )
+    return (
+        -half_deviance / dispersion
+        - 0.5 * (log(2 * M_PI * dispersion) + power * log(y))
+    )
+
+cdef double _tweedie_normalization(double y, double power, double dispersion) nogil:
     # This implementation follows https://doi.org/10.1007/s11222-005-4070-y.
 
-    cdef int j, j_lower, j_upper
+    cdef long j, j_lower, j_upper
 
-    cdef floating j_max = exp((2 - power) * log(y) - log(dispersion) - log(2 - power))
-    cdef floating w_max = _log_w_j(y, power, dispersion, j_max)
-    cdef floating w_summand = 0.0
+    cdef double j_max = _j_max(y, power, dispersion)
+    cdef double w_max = _log_w_j(y, power, dispersion, j_max)
+    cdef double w_summand = 0.0
 
     j_lower, j_upper = _sum_limits(y, power, dispersion, j_max)
 
@@ -436,16 +445,16 @@ cdef floating _tweedie_normalization(floating y, floating power, floating disper
 
     return w_max + log(w_summand) - log(y)
 
-cdef (int, int) _sum_limits(floating y, floating power, floating dispersion, floating j_max) nogil:
+cdef (long, long) _sum_limits(double y, double power, double dispersion, double j_max) nogil:
 
-    cdef floating w_lower
+    cdef double w_lower
 
-    cdef floating j_lower = 1.0
-    cdef floating j_upper = ceil(j_max)
-    cdef floating w_upper = _log_w_j(y, power, dispersion, j_upper)
+    cdef double j_lower = 1.0
+    cdef double j_upper = ceil(j_max)
+    cdef double w_upper = _log_w_j(y, power, dispersion, j_upper)
 
-    cdef floating w_crt = _log_w_j(y, power, dispersion, j_max) - 37
-    cdef floating w_one = _log_w_j(y, power, dispersion, 1)
+    cdef double w_crt = _log_w_j(y, power, dispersion, j_max) - 37
+    cdef double w_one = _log_w_j(y, power, dispersion, 1)
 
     if w_one <= w_crt:
         j_lower = floor(j_max)
@@ -459,12 +468,15 @@ cdef (int, int) _sum_limits(floating y, floating power, floating dispersion, flo
 
     return int(j_lower), int(j_upper)
 
-cdef floating _log_w_j(floating y, floating power, floating dispersion, numeric j) nogil:
-    cdef floating alpha = (2 - power) / (1 - power)
+cdef double _j_max(double y, double power, double dispersion) nogil:
+    return exp((2 - power) * log(y) - log(dispersion) - log(2 - power))
+
+cdef double _log_w_j(double y, double power, double dispersion, double j) nogil:
+    cdef double alpha = (2 - power) / (1 - power)
     return j * _log_z(y, power, dispersion) - lgamma(1 + j) - lgamma(-alpha * j)
 
-cdef floating _log_z(floating y, floating power, floating dispersion) nogil:
-    cdef floating alpha = (2 - power) / (1 - power)
+cdef double _log_z(double y, double power, double dispersion) nogil:
+    cdef double alpha = (2 - power) / (1 - power)
     return (
         alpha * log(power - 1)
         - alpha * log(y)
-- 
2.43.0


From d1905c3d9adb5ffeaa7295334cf046b71c4a91bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 40/50] fix: sparse-array P2 with a single column

is_pos_semidef called .any() on scipy sparse arrays, which only scipy sparse
matrices were exempt from.
---
 src/glum/_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 0192da4..16cace8 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -18,7 +18,7 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
     """
     # 1d case
     if p.ndim == 1 or p.shape[0] == 1:
-        any_negative = (p < 0).max() if sparse.isspmatrix(p) else (p < 0).any()
+        any_negative = (p < 0).max() if sparse.issparse(p) else (p < 0).any()
         return not any_negative
 
     # 2d case
-- 
2.43.0


From 1e217e96fc2927cbd5800dc594aacf6e61c5a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:51 +0000
Subject: [PATCH 41/50] fix: sparse P2 with 2000 or more columns

is_pos_semidef called scipy.linalg.eigsh, which does not exist, so every fit
with such a penalty raised AttributeError. Check the signs of the pivots of a
sparse factorization instead.
---
 src/glum/_linalg.py | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/glum/_linalg.py b/src/glum/_linalg.py
index 16cace8..f02fdc5 100644
--- a/src/glum/_linalg.py
+++ b/src/glum/_linalg.py
@@ -4,6 +4,7 @@ from typing import Optional, Union
 import numpy as np
 import tabmat as tm
 from scipy import linalg, sparse
+from scipy.sparse.linalg import splu
 
 from ._utils import safe_toarray
 
@@ -27,21 +28,11 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
 
     if sparse.issparse(p):
         # Computing eigenvalues for sparse matrices is inefficient. If the matrix is
-        # not huge, convert to dense. Otherwise, calculate 10% of its eigenvalues.
+        # not huge, convert to dense. Otherwise, check the signs of the pivots.
         p = typing.cast(sparse.spmatrix, p)
-        if p.shape[0] < 2000:
-            eigenvalues = linalg.eigvalsh(p.toarray())
-        else:
-            n_evals_to_compuate = p.shape[0] // 10 + 1
-            sigma = -1000 * epsneg  # start searching near this value
-            which = "SA"  # find smallest algebraic eigenvalues first
-            eigenvalues = linalg.eigsh(
-                p,
-                k=n_evals_to_compuate,
-                sigma=sigma,
-                which=which,
-                return_eigenvectors=False,
-            )
+        if p.shape[0] >= 2000:
+            return _has_nonnegative_pivots(p, -epsneg)
+        eigenvalues = linalg.eigvalsh(p.toarray())
     else:  # dense
         eigenvalues = linalg.eigvalsh(p)
 
@@ -49,6 +40,29 @@ def is_pos_semidef(p: Union[sparse.spmatrix, np.ndarray]) -> Union[bool, np.bool
     return np.all(eigenvalues >= epsneg * max(1, np.max(np.abs(eigenvalues))))
 
 
+def _has_nonnegative_pivots(p: sparse.spmatrix, eps: float) -> bool:
+    """
+    Check that a symmetric sparse matrix is positive semidefinite up to rounding.
+
+    A symmetric matrix is positive definite if and only if elimination with
+    diagonal pivots encounters positive pivots only. Semidefinite matrices are
+    shifted by the size of the rounding errors.
+    """
+    scale = max(1.0, abs(p).sum(axis=0).max())
+    shift = scale * max(eps, p.shape[0] * np.finfo(np.float64).eps)
+    shifted = p.astype(np.float64) + shift * sparse.identity(p.shape[0])
+    try:
+        lu = splu(
+            sparse.csc_matrix(shifted),
+            permc_spec="MMD_AT_PLUS_A",
+            diag_pivot_thresh=0.0,
+            options={"SymmetricMode": True},
+        )
+    except RuntimeError:  # exactly singular
+        return False
+    return bool(np.all(lu.perm_r == lu.perm_c) and np.all(lu.U.diagonal() > 0))
+
+
 def _safe_lin_pred(
     X: Union[tm.MatrixBase, tm.StandardizedMatrix],
     coef: np.ndarray,
-- 
2.43.0


From 06c10a52d5d674a71f5b4472f7c79d48ab9ca865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:39 +0000
Subject: [PATCH 42/50] fix: refuse non-finite scalar offsets and weights

---
 src/glum/_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index e20e26e..0bcdc3b 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -163,6 +163,8 @@ def check_offset(
     if offset is None:
         return None
     if np.isscalar(offset):
+        if not np.isfinite(offset):  # type: ignore
+            raise ValueError(f"Offsets must be finite; got {offset}.")
         return np.full(n_rows, offset, dtype=dtype)
 
     offset = skl.utils.check_array(
@@ -195,6 +197,8 @@ def check_weights(
     if np.isscalar(sample_weight):
         if sample_weight <= 0:  # type: ignore
             raise ValueError("Sample weights must be non-negative.")
+        if force_all_finite and not np.isfinite(sample_weight):  # type: ignore
+            raise ValueError(f"Sample weights must be finite; got {sample_weight}.")
         if not np.issubdtype(dtype, np.floating):  # do not truncate the weight
             dtype = np.float64
         return np.full(n_samples, sample_weight, dtype=dtype)
-- 
2.43.0


From ae73a61de77e4d3c306850d9bbfe0b9c36b77822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:14 +0000
Subject: [PATCH 43/50] fix: refuse NaN in bounds and inequality constraints

---
 src/glum/_validation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/glum/_validation.py b/src/glum/_validation.py
index 0bcdc3b..755b4b9 100644
--- a/src/glum/_validation.py
+++ b/src/glum/_validation.py
@@ -98,6 +98,8 @@ def check_bounds(
     if bounds is None:
         return None
     if np.isscalar(bounds):
+        if np.isnan(bounds):  # type: ignore
+            raise ValueError("Bounds must not be NaN.")
         return np.full(n_features, bounds, dtype=dtype)
 
     bounds = skl.utils.check_array(
@@ -114,6 +116,8 @@ def check_bounds(
         raise ValueError("Bounds must be 1D array or scalar.")
     if bounds.shape[0] != n_features:  # type: ignore
         raise ValueError("Bounds must be the same length as X.shape[1].")
+    if np.any(np.isnan(bounds)):
+        raise ValueError("Bounds must not be NaN.")
 
     return bounds
 
@@ -150,6 +154,8 @@ def check_inequality_constraints(
             raise ValueError("A_ineq and b_ineq must have same number of rows.")
         if b_ineq.ndim > 1:  # type: ignore
             raise ValueError("b_ineq must be 1D array.")
+        if np.any(np.isnan(A_ineq)) or np.any(np.isnan(b_ineq)):
+            raise ValueError("A_ineq and b_ineq must not contain NaN.")
     return A_ineq, b_ineq
 
 
-- 
2.43.0


From 6b53b78f483e7202cf29f72e51be5f0e74bdc020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 44/50] fix: validate inequality constraints in
 GeneralizedLinearRegressorCV

---
 src/glum/_glm_cv.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 625b568..5c4717c 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -1,4 +1,3 @@
-import copy
 from collections.abc import Mapping, Sequence
 from typing import Any, Optional, Union
 
@@ -14,7 +13,7 @@ from ._linalg import _safe_lin_pred, is_pos_semidef
 from ._link import Link
 from ._typing import ArrayLike
 from ._utils import standardize, unstandardize
-from ._validation import check_bounds
+from ._validation import check_bounds, check_inequality_constraints
 
 
 class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
@@ -637,11 +636,10 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         if self.monotonic_constraints is not None:
             A_ineq, b_ineq = self._resolve_monotonic_constraints()
-        elif self.A_ineq is not None and self.b_ineq is not None:
-            A_ineq = copy.copy(self.A_ineq)
-            b_ineq = copy.copy(self.b_ineq)
         else:
-            A_ineq, b_ineq = None, None
+            A_ineq, b_ineq = check_inequality_constraints(
+                self.A_ineq, self.b_ineq, n_features=X.shape[1], dtype=X.dtype
+            )
 
         cv = skl.model_selection.check_cv(self.cv)
 
-- 
2.43.0


From ddc7e7a46ab1daa006ae9d5385bd0540cb677ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:42 +0000
Subject: [PATCH 45/50] fix: refuse cross-validation splits without weight

---
 src/glum/_glm_cv.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 5c4717c..a49cfcd 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -663,13 +663,19 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
                 y[train_idx],
                 sample_weight[train_idx],
             )
-            w_train /= w_train.sum()
 
             x_test, y_test, w_test = (
                 X[test_idx, :],
                 y[test_idx],
                 sample_weight[test_idx],
             )
+
+            if w_train.sum() == 0 or w_test.sum() == 0:
+                raise ValueError(
+                    "Sample weights must not all be zero in the training or test "
+                    "set of a cross-validation split."
+                )
+            w_train /= w_train.sum()
             w_test /= w_test.sum()
 
             if offset is not None:
-- 
2.43.0


From 4afc324417e3c8ff2275e46ea65b8b490d6e39fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:58 +0000
Subject: [PATCH 46/50] fix: cross-validation with splitters that need the data
 to count their splits

---
 src/glum/_glm_cv.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index a49cfcd..7c21aa5 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -803,24 +803,27 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
 
         paths_data = joblib.Parallel(n_jobs=self.n_jobs, prefer="processes")(jobs)
 
+        # some splitters (e.g. LeaveOneOut) need the data to know their splits
+        n_splits = cv.get_n_splits(X, y)
+
         self.intercept_path_ = np.reshape(
             [elmt[0] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.coef_path_ = np.reshape(
             [elmt[1] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0]), -1),
+            (n_splits, len(l1_ratio), len(alphas[0]), -1),
         )
 
         self.deviance_path_ = np.reshape(
             [elmt[2] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         self.train_deviance_path_ = np.reshape(
             [elmt[3] for elmt in paths_data],
-            (cv.get_n_splits(), len(l1_ratio), len(alphas[0])),
+            (n_splits, len(l1_ratio), len(alphas[0])),
         )
 
         avg_deviance = self.deviance_path_.mean(axis=0)  # type: ignore
-- 
2.43.0


From 47f5f67efa4a9beffdfe39625003217c895f7c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:58 +0000
Subject: [PATCH 47/50] fix: refuse NaN and infinite penalties, tolerances and
 path limits

---
 src/glum/_glm.py    | 26 ++++++++++++++++++--------
 src/glum/_glm_cv.py | 11 +++++++----
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/glum/_glm.py b/src/glum/_glm.py
index 548fe29..1c2e774 100644
--- a/src/glum/_glm.py
+++ b/src/glum/_glm.py
@@ -1887,19 +1887,26 @@ class GeneralizedLinearRegressorBase(skl.base.RegressorMixin, skl.base.BaseEstim
         if self.gradient_tol is not None:
             if (
                 not isinstance(self.gradient_tol, (float, int))
-                or self.gradient_tol <= 0
+                or not self.gradient_tol > 0  # also refuses NaN
             ):
                 raise ValueError(
                     "Tolerance for the gradient stopping criteria must be positive; "
                     f"got (gradient_tol={self.gradient_tol})."
                 )
         if self.step_size_tol is not None and (
-            not isinstance(self.step_size_tol, (float, int)) or self.step_size_tol <= 0
+            not isinstance(self.step_size_tol, (float, int))
+            or not self.step_size_tol > 0
         ):
             raise ValueError(
                 "Tolerance for the step-size stopping criteria must be positive; "
                 f"got (step_size_tol={self.step_size_tol})."
             )
+        for name in ("min_alpha_ratio", "min_alpha"):
+            value = getattr(self, name, None)
+            if value is not None and not 0 < value < np.inf:  # also refuses NaN
+                raise ValueError(
+                    f"{name} must be a positive, finite number; got ({name}={value})."
+                )
         if not isinstance(self.warm_start, bool):
             raise TypeError(
                 f"The argument warm_start must be bool; got {self.warm_start}."
@@ -2708,17 +2715,21 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
                     "`alpha` should be an Iterable or None when `alpha_search` is True"
                 )
             if self.alpha is not None and (
-                (np.asarray(self.alpha) < 0).any()
-                or not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                not np.issubdtype(np.asarray(self.alpha).dtype, np.number)
+                or not np.all(np.isfinite(self.alpha))  # type: ignore
+                or (np.asarray(self.alpha) < 0).any()
             ):
-                raise ValueError("`alpha` must contain only non-negative numbers")
+                raise ValueError(
+                    "`alpha` must contain only finite, non-negative numbers"
+                )
         if not self.alpha_search:
             if not np.isscalar(self.alpha) and self.alpha is not None:
                 raise ValueError(
                     "`alpha` should be a scalar or None when `alpha_search` is False"
                 )
             if self.alpha is not None and (
-                not isinstance(self.alpha, (int, float)) or self.alpha < 0
+                not isinstance(self.alpha, (int, float))
+                or not 0 <= self.alpha < np.inf  # also refuses NaN
             ):
                 raise ValueError(
                     "Penalty term must be a non-negative number;"
@@ -2729,8 +2740,7 @@ class GeneralizedLinearRegressor(GeneralizedLinearRegressorBase):
             not np.isscalar(self.l1_ratio)
             # check for numeric, i.e. not a string
             or not np.issubdtype(np.asarray(self.l1_ratio).dtype, np.number)
-            or self.l1_ratio < 0  # type: ignore
-            or self.l1_ratio > 1  # type: ignore
+            or not 0 <= self.l1_ratio <= 1  # type: ignore
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1];"
diff --git a/src/glum/_glm_cv.py b/src/glum/_glm_cv.py
index 7c21aa5..71a8444 100644
--- a/src/glum/_glm_cv.py
+++ b/src/glum/_glm_cv.py
@@ -491,13 +491,16 @@ class GeneralizedLinearRegressorCV(GeneralizedLinearRegressorBase):
         )
 
     def _validate_hyperparameters(self) -> None:
-        if self.alphas is not None and np.any(np.asarray(self.alphas) < 0):
-            raise ValueError(f"alphas must be non-negative; got {self.alphas}")
+        if self.alphas is not None and (
+            not np.all(np.isfinite(self.alphas)) or np.any(np.asarray(self.alphas) < 0)
+        ):
+            raise ValueError(
+                f"alphas must be finite and non-negative; got {self.alphas}"
+            )
         l1_ratio = np.asarray(self.l1_ratio)
         if (
             not np.issubdtype(l1_ratio.dtype, np.number)
-            or np.any(l1_ratio < 0)
-            or np.any(l1_ratio > 1)
+            or not np.all((l1_ratio >= 0) & (l1_ratio <= 1))  # also refuses NaN
         ):
             raise ValueError(
                 "l1_ratio must be a number in interval [0, 1]; got "
-- 
2.43.0


From 2baadc808d91770d9cf03a3a72d70c2f50d06b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:30 +0000
Subject: [PATCH 48/50] fix: constant variance of tweedie(0) has derivative
 zero also at a mean of zero

---
 src/glum/_distribution.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/glum/_distribution.py b/src/glum/_distribution.py
index 7f4b2a8..4803ab5 100644
--- a/src/glum/_distribution.py
+++ b/src/glum/_distribution.py
@@ -619,7 +619,10 @@ class TweedieDistribution(ExponentialDispersionModel):
         return numexpr.evaluate("mu ** p")
 
     def unit_variance_derivative(self, mu):  # noqa D
-        p = self.power  # noqa: F841
+        p = self.power
+        if p == 0:
+            # the variance is constant; the formula below is 0 * inf at mu = 0
+            return np.zeros_like(mu)
         return numexpr.evaluate("p * mu ** (p - 1)")
 
     def deviance(self, y, mu, sample_weight=None) -> float:  # noqa D
-- 
2.43.0


From fa81e62afb8491ed6e7a99caa19ed964a0a10850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:16 +0000
Subject: [PATCH 49/50] fix: benchmarks report the objective at the requested
 alpha

---
 glum_benchmarks/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/glum_benchmarks/util.py b/glum_benchmarks/util.py
index f5543b0..1599e42 100644
--- a/glum_benchmarks/util.py
+++ b/glum_benchmarks/util.py
@@ -490,8 +490,8 @@ def execute_problem_library(
         result["num_rows"] = dat["y"].shape[0]
 
         if "X" in dat:
-            # Use best_alpha from CV if available, otherwise use base alpha
-            alpha_for_obj = result.get("best_alpha", P.alpha)
+            # Use best_alpha from CV if available, otherwise the requested alpha
+            alpha_for_obj = result.get("best_alpha", params.alpha)
             alpha_for_obj = (
                 alpha_for_obj / np.asarray(dat["sample_weight"]).mean()
                 if "sample_weight" in dat
-- 
2.43.0


From 705dcc806f97eac5cd73deea68429509d4702c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:16 +0000
Subject: [PATCH 50/50] fix: sparse simulated features follow random_seed

---
 glum_benchmarks/data/simulated_glm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/glum_benchmarks/data/simulated_glm.py b/glum_benchmarks/data/simulated_glm.py
index 6d945aa..1788023 100644
--- a/glum_benchmarks/data/simulated_glm.py
+++ b/glum_benchmarks/data/simulated_glm.py
@@ -138,7 +138,9 @@ def simulate_mixed_data(
 
     # Creating sparse component
     sparse_feature_names = [f"sparse{i}" for i in range(sparse_features)]
-    X_sparse = sps.random(n_rows, sparse_features, density=sparse_density).toarray()
+    X_sparse = sps.random(
+        n_rows, sparse_features, density=sparse_density, random_state=rand
+    ).toarray()
     X_sparse = pd.DataFrame(data=X_sparse, columns=sparse_feature_names)
     coefs_sparse = rand.choice([0, 1, -1], size=sparse_features)
     coefs_sparse = pd.Series(data=coefs_sparse, index=sparse_feature_names)
-- 
2.43.0

