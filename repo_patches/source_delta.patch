From 81d82ddb63fc26f764c4168022cecc20ca2f7640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 01/42] fix: Triangle <= includes equality

---
 chainladder/core/dunders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 137f1dd..532062d 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -368,5 +368,5 @@ class TriangleDunders:
     def __le__(self, value):
         obj = self.copy()
         xp = self.get_array_module()
-        obj.values = xp.nan_to_num(obj.values) < xp.nan_to_num(value)
+        obj.values = xp.nan_to_num(obj.values) <= xp.nan_to_num(value)
         return obj
-- 
2.43.0


From 9091045edfcccbf4b3b94f91fc76e0f44a8de446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 02/42] fix: tail estimators no longer edit the std_err_ of the
 triangle passed in

---
 chainladder/tails/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index 6243aeb..e46054c 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -118,8 +118,7 @@ class TailBase(DevelopmentBase):
             xp = X.sigma_.get_array_module()
             reg = WeightedRegression(axis=3, xp=xp).fit(None, xp.log(X.sigma_.values), None)
             sigma_ = xp.exp(time_pd * reg.slope_ + reg.intercept_)
-            y = X.std_err_.values
-            y = num_to_nan(y)
+            y = num_to_nan(X.std_err_.values.copy())
             reg = WeightedRegression(axis=3, xp=xp).fit(None, xp.log(y), None)
             std_err_ = xp.exp(time_pd * reg.slope_ + reg.intercept_)
             if self.tail_.values.flatten().sum() / xp.prod(self.tail_.shape) == 1.0:
-- 
2.43.0


From f66cf25cac3608a94f4424c1df72daf20df50781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 03/42] fix: set_backend(deep=True) no longer converts
 sub-triangles shared with the original

---
 chainladder/core/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 54296a2..bd58234 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -189,7 +189,7 @@ class Common:
                 if deep:
                     for k, v in vars(self).items():
                         if isinstance(v, Common):
-                            v.set_backend(backend, inplace=True, deep=True)
+                            setattr(self, k, v.set_backend(backend, deep=True))
                 if hasattr(self, "array_backend"):
                     self.array_backend = backend
             else:
-- 
2.43.0


From 3a706ab235717e2b4cf7240f2c4fe98824e5f472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 04/42] fix: Clark growth function leaves the ages passed in
 unchanged and rejects unknown curves

---
 chainladder/development/clark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/clark.py b/chainladder/development/clark.py
index 670a12a..e38cf25 100644
--- a/chainladder/development/clark.py
+++ b/chainladder/development/clark.py
@@ -60,13 +60,13 @@ class ClarkLDF(DevelopmentBase):
             theta = self.theta_.values[..., None, None]
         if omega is None:
             omega = self.omega_.values[..., None, None]
-        age[age == 0.0] = xp.nan
+        age = xp.where(age == 0.0, xp.nan, age)
         if self.growth == "loglogistic":
             out = 1 + (theta ** omega) * (age ** (-omega))
         elif self.growth == "weibull":
             out = 1 / (1 - xp.exp(-((age / theta) ** omega)))
         else:
-            ValueError(str(self.growth) + "is an invalid growth curve.")
+            raise ValueError(str(self.growth) + " is an invalid growth curve.")
         out[xp.isnan(out)] = xp.inf
         return out
 
-- 
2.43.0


From 244c8f3440064345c8de30fb3b34c868d7e2bd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 05/42] fix: CaseOutstanding.transform leaves the fitted
 estimator unchanged

---
 chainladder/development/outstanding.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/chainladder/development/outstanding.py b/chainladder/development/outstanding.py
index ffaa552..b5ce212 100644
--- a/chainladder/development/outstanding.py
+++ b/chainladder/development/outstanding.py
@@ -96,7 +96,8 @@ class CaseOutstanding(DevelopmentBase):
         self.paid_ldf_ = self.paid_to_prior_case_.mean(2)  # this has the wrong value
         self.paid_ldf_.values = paid_to_prior_case_naned.mean(axis=2).values
 
-        self.ldf_ = self._set_ldf(self.X_).set_backend(backend)
+        ldf_, self.case, self.paid = self._set_ldf(self.X_)
+        self.ldf_ = ldf_.set_backend(backend)
 
         return self
 
@@ -174,9 +175,7 @@ class CaseOutstanding(DevelopmentBase):
         dev.is_pattern = True
         dev.is_cumulative = True
 
-        self.case = case_tri
-        self.paid = paid
-        return dev.cum_to_incr()
+        return dev.cum_to_incr(), case_tri, paid
 
     @property
     def case_to_prior_case_(self):
@@ -229,7 +228,7 @@ class CaseOutstanding(DevelopmentBase):
             X_new : New triangle with transformed attributes.
         """
         X_new = X.copy()
-        X_new.ldf_ = self._set_ldf(X_new).set_backend(self.ldf_.array_backend)
+        X_new.ldf_ = self._set_ldf(X_new)[0].set_backend(self.ldf_.array_backend)
         X_new._set_slicers()
         X_new.paid_ldf_ = self.paid_ldf_
         X_new.case_ldf_ = self.case_ldf_
-- 
2.43.0


From 445bb116d68f0203da88e155ecd60890f5d2d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 06/42] fix: MunichAdjustment.transform leaves the fitted
 estimator unchanged

---
 chainladder/development/munich.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/chainladder/development/munich.py b/chainladder/development/munich.py
index fa1ad73..a96335e 100644
--- a/chainladder/development/munich.py
+++ b/chainladder/development/munich.py
@@ -82,7 +82,6 @@ class MunichAdjustment(DevelopmentBase):
         else:
             obj = X.copy()
         xp = obj.get_array_module()
-        self.xp = xp
         missing = xp.nan_to_num(obj.values) * obj.nan_triangle == 0
         self.rho_ = obj[obj.origin == obj.origin.min()]
         if len(xp.where(missing)[0]) > 0:
@@ -137,11 +136,9 @@ class MunichAdjustment(DevelopmentBase):
             X_new = X.set_backend("numpy")
         else:
             X_new = X.copy()
-        xp = X_new.get_array_module()
-        self.xp = xp
         if "ldf_" not in X_new:
             X_new = Development().fit_transform(X_new)
-        self.xp = X_new.get_array_module()
+        xp = X_new.get_array_module()
         X_new.p_to_i_X_ = self._get_p_to_i_object(X_new)
         X_new.p_to_i_ldf_ = self._get_p_to_i_object(X_new.ldf_)
         X_new.p_to_i_sigma_ = self._get_p_to_i_object(X_new.sigma_)
@@ -153,11 +150,11 @@ class MunichAdjustment(DevelopmentBase):
             self.lambda_coef_,
             X_new.rho_sigma_,
             X_new.q_f_,
+            xp,
         )
         X_new.ldf_ = self._set_ldf(
             X_new, self._get_mcl_cdf(X_new, X_new.munich_full_triangle_)
         )
-        del self.xp
         triangles = ["rho_", "lambda_", "lambda_coef_"]
         for item in triangles:
             setattr(X_new, item, getattr(self, item))
@@ -268,9 +265,16 @@ class MunichAdjustment(DevelopmentBase):
         )
 
     def _get_munich_full_triangle_(
-        self, p_to_i_X_, p_to_i_ldf_, p_to_i_sigma_, lambda_coef_, rho_sigma_, q_f_
+        self,
+        p_to_i_X_,
+        p_to_i_ldf_,
+        p_to_i_sigma_,
+        lambda_coef_,
+        rho_sigma_,
+        q_f_,
+        xp=None,
     ):
-        xp = self.xp if hasattr(self, "xp") else self.ldf_.get_array_module()
+        xp = self.rho_.get_array_module() if xp is None else xp
         full_paid = xp.nan_to_num(p_to_i_X_[0][..., 0:1])
         full_incurred = p_to_i_X_[1][..., 0:1]
         for i in range(p_to_i_X_[0].shape[-1] - 1):
-- 
2.43.0


From 0cd1d19df94e04021b10e13967c3ab9942fb2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:20 +0000
Subject: [PATCH 07/42] fix: VotingChainladder.fit leaves the default_weighting
 parameter unchanged

---
 chainladder/workflow/voting.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 896b838..4904d51 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -47,10 +47,15 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     Warning: This class should not be used directly. Use derived classes
     instead.
     """
+    def _get_default_weighting(self):
+        if self.default_weighting is None:
+            return (1, ) * len(self.estimators)
+        return self.default_weighting
+
     def _assum_vector_is_none(self, X, assum_vector):
         # return np.ones(X.shape[:3] + (len(self.estimators), ))
         return np.repeat(
-            np.array(self.default_weighting)[np.newaxis, :],
+            np.array(self._get_default_weighting())[np.newaxis, :],
             repeats=X.shape[-1],
             axis=0
             )
@@ -69,7 +74,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
 
     def _assum_vector_is_dict(self, X, assum_vector):
         mapping_dict = {X.origin[X.origin == k][0]: v for k, v in assum_vector.items()}
-        missing = {k: self.default_weighting for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
+        missing = {k: self._get_default_weighting() for k in X.origin[~X.origin.isin(mapping_dict.keys())]}
         assum_vector_ = np.array([*self.X_.origin.map({**mapping_dict, **missing})])
         return assum_vector_
 
@@ -105,8 +110,6 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     def fit(self, X, y, sample_weight=None):
         """Get common fit operations."""
         names, clfs = self._validate_estimators()
-        if self.default_weighting is None:
-            self.default_weighting = (1, ) * len(self.estimators)
         self.weights_ = self._coerce_assum_vector_to_array(X, self.weights)
         self.weights_ = self.weights_[..., np.newaxis]
         if self.weights_.shape[-3] != X.shape[2]:
-- 
2.43.0


From dc5e9b5e1c434365783608e1434f4e6d317f1c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 08/42] fix: BootstrapODPSample.transform no longer writes to
 the fitted resampled_triangles_

---
 chainladder/adjustments/bootstrap.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index 1ad6b09..11c3761 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -245,8 +245,7 @@ class BootstrapODPSample(DevelopmentBase):
         -------
             X_new: New triangle with transformed attributes.
         """
-        X_new = X.copy()
-        X_new = self.resampled_triangles_
+        X_new = self.resampled_triangles_.copy()
         X_new.scale_ = self.scale_
         X_new.random_state = self.random_state
         X_new._get_process_variance = types.MethodType(_get_process_variance, X_new)
-- 
2.43.0


From 2d85216e1818c67601d7e0a86bbd550194bb51fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 09/42] fix: process variance of a bootstrap with
 random_state=0 is reproducible

---
 chainladder/adjustments/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index 11c3761..fdcdaaf 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -259,7 +259,7 @@ def _get_process_variance(self, full_triangle):
     xp = full_triangle.get_array_module()
     lower_tri = full_triangle.cum_to_incr() - self.cum_to_incr()
     random_state = xp.random.RandomState(
-        None if not self.random_state else self.random_state + 1
+        None if self.random_state is None else self.random_state + 1
     )
     lower_tri.values = random_state.gamma(
         shape=abs(lower_tri.values) / self.scale_, scale=self.scale_
-- 
2.43.0


From 385fb2ddd78e5575b976e9882fdd70a679277cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 10/42] fix: TweedieGLM passes alpha to the regressor

---
 chainladder/development/glm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/development/glm.py b/chainladder/development/glm.py
index 9b12136..262cae3 100644
--- a/chainladder/development/glm.py
+++ b/chainladder/development/glm.py
@@ -96,7 +96,8 @@ class TweedieGLM(DevelopmentBase):
         self.model_ = DevelopmentML(Pipeline(steps=[
             ('design_matrix', PatsyFormula(self.design_matrix)),
             ('model', TweedieRegressor(
-                    link=self.link, power=self.power, max_iter=self.max_iter,
+                    link=self.link, power=self.power, alpha=self.alpha,
+                    max_iter=self.max_iter,
                     tol=self.tol, warm_start=self.warm_start,
                     verbose=self.verbose, fit_intercept=False))]),
                     y_ml=response, weight_ml=self.weight).fit(X)
-- 
2.43.0


From ee416794a8c2e37b1d5e48d6d6e99e432c1e4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 11/42] fix: to_pickle honours protocol

---
 chainladder/core/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 127c1f7..d49e3cf 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -21,7 +21,7 @@ class TriangleIO:
 
         """
         with open(path, "wb") as pkl:
-            dill.dump(self, pkl)
+            dill.dump(self, pkl, protocol=protocol)
 
     def to_json(self):
         """ Serializes triangle object to json format
@@ -67,7 +67,7 @@ class EstimatorIO:
             The pickle protocol to use.
         """
         with open(path, "wb") as pkl:
-            dill.dump(self, pkl)
+            dill.dump(self, pkl, protocol=protocol)
 
     def to_json(self):
         """ Serializes triangle object to json format
-- 
2.43.0


From ce5de7773b40d96f680fab70ed7e6e38a68cd0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 12/42] fix: n_periods works for semi-annual development of
 quarterly and monthly data

---
 chainladder/development/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/base.py b/chainladder/development/base.py
index a1a2107..0bd58de 100644
--- a/chainladder/development/base.py
+++ b/chainladder/development/base.py
@@ -386,8 +386,8 @@ class DevelopmentBase(BaseEstimator, TransformerMixin, EstimatorIO, Common):
             val_offset = {
                 "Y": {"Y": 1},
                 "S": {"Y": 2, "S": 1},
-                "Q": {"Y": 4, "Q": 1},
-                "M": {"Y": 12, "Q": 3, "M": 1},
+                "Q": {"Y": 4, "S": 2, "Q": 1},
+                "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
             }
             if n_periods < 1 or n_periods >= X.shape[-2]:
                 return X.values * 0 + 1
-- 
2.43.0


From 70090ee4c0bf5bb943f902a64bc6a8bbe565dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 13/42] fix: DevelopmentML uses two semi-annual periods per
 year

---
 chainladder/development/learning.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainladder/development/learning.py b/chainladder/development/learning.py
index a66bcdc..dd711ec 100644
--- a/chainladder/development/learning.py
+++ b/chainladder/development/learning.py
@@ -94,7 +94,7 @@ class DevelopmentML(DevelopmentBase):
         X_r = [df]
         y_r = [preds]
         dgrain = {'Y':12, 'Q':3, 'M': 1, 'S': 6}[self.development_grain_]
-        ograin = {'Y':1, 'Q':4, 'M': 12, 'S': 6}[self.origin_grain_]
+        ograin = {'Y':1, 'Q':4, 'M': 12, 'S': 2}[self.origin_grain_]
         latest_filter = (df['origin']+1)*ograin+(df['development']-dgrain)/dgrain
         latest_filter = latest_filter == latest_filter.max()
         preds=pd.DataFrame(preds.copy())[latest_filter].values
@@ -171,11 +171,11 @@ class DevelopmentML(DevelopmentBase):
         self.development_grain_ = X.development_grain
         self.origin_encoder_ = dict(zip(
             X.origin.to_timestamp(how='s'),
-            (pd.Series(X.origin).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 6}[X.origin_grain]))
+            (pd.Series(X.origin).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 2}[X.origin_grain]))
         val = X.valuation.sort_values().unique()
         self.valuation_encoder_ = dict(zip(
             val,
-            (pd.Series(val).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 6}[X.development_grain]))
+            (pd.Series(val).rank()-1)/{'Y':1, 'Q':4, 'M': 12, 'S': 2}[X.development_grain]))
         df = self._prep_X_ml(X)
         self.df_ = df
         # Fit model
-- 
2.43.0


From 41d2ac313dc1dfcfc077f8b8f6e44f085c140516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 14/42] fix: model_diagnostics shows one year of run off for
 semi-annual triangles

---
 chainladder/utils/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 249ad45..ac51989 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -461,7 +461,7 @@ def model_diagnostics(model, name=None, groupby=None):
     run_off = obj.full_expectation_.iloc[..., :-1].dev_to_val().cum_to_incr()
     run_off = run_off[run_off.development > str(obj.X_.valuation_date)]
     run_off = run_off.iloc[
-        ..., : {"M": 12, "S": 6, "Q": 4, "Y": 1}[obj.X_.development_grain]
+        ..., : {"M": 12, "S": 2, "Q": 4, "Y": 1}[obj.X_.development_grain]
     ]
 
     triangles = []
-- 
2.43.0


From b81d4dbb3a82b1047e88cdb1faead8ad86ef1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 15/42] fix: TrendConstant no longer prints

---
 chainladder/adjustments/trend.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/chainladder/adjustments/trend.py b/chainladder/adjustments/trend.py
index 6e69e36..8e184d7 100644
--- a/chainladder/adjustments/trend.py
+++ b/chainladder/adjustments/trend.py
@@ -141,13 +141,9 @@ class TrendConstant(BaseEstimator, TransformerMixin, EstimatorIO):
         # self: object
         #     Returns the instance itself.
         # """
-        print("IN TrendConstant FIT")
-        print("base_trend", self.base_trend)
-
         self.trendedvalues_ = X.copy().trend(
             self.base_trend, self.axis  # , start=dates[i][0], end=dates[i][1]
         )
-        print("self.trendedvalues_\n", self.trendedvalues_)
 
         # if type(dates[0]) is not tuple:
         #     raise AttributeError(
@@ -159,7 +155,6 @@ class TrendConstant(BaseEstimator, TransformerMixin, EstimatorIO):
         #         trend, self.axis, start=dates[i][0], end=dates[i][1]
         #     )
         self.trendfactor_ = self.trendedvalues_ / X
-        print("self.trendfactor_\n", self.trendfactor_)
         return self
 
     def transform(self, X, y=None, sample_weight=None):
-- 
2.43.0


From 382faa7ac291b9a577dc20b04cf22b1ef6a4c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 16/42] fix: groupby accepts a column axis given by name

---
 chainladder/core/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index abe87a3..d5c4268 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -22,7 +22,7 @@ class TriangleGroupBy:
             self.groups = kwargs.get("groups", None)
         elif self.axis == 0:
             self.groups = obj.index.groupby(by)
-        elif axis == 1:
+        elif self.axis == 1:
             self.groups = pd.DataFrame(obj.columns).groupby(by)
         else:
             self.groups = pd.DataFrame(by).groupby(by)
-- 
2.43.0


From 7780b4f1266eb69871d5df00feffd444739a66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 17/42] fix: sparse column assignment leaves the assigned
 triangle unchanged

---
 chainladder/core/slice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 9eb22bd..20a2e08 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -223,8 +223,9 @@ class TriangleSlicer:
                 before = self.drop(key).values
                 bc = before.coords[1, :]
                 before.coords[1] = np.where(bc >= i, bc + 1, bc,)
-                value.values.coords[1] = i
-                coords = np.concatenate((before.coords, value.values.coords), axis=1)
+                value_coords = value.values.coords.copy()
+                value_coords[1] = i
+                coords = np.concatenate((before.coords, value_coords), axis=1)
                 data = np.concatenate((before.data, value.values.data))
                 self.values = xp(
                     coords, data, shape=self.shape, prune=True, fill_value=xp.nan
-- 
2.43.0


From a0dbb11e395a360860fd514871721edc360216c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 18/42] fix: copies of a triangle no longer share virtual
 columns

---
 chainladder/core/slice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/core/slice.py b/chainladder/core/slice.py
index 20a2e08..9985c7f 100644
--- a/chainladder/core/slice.py
+++ b/chainladder/core/slice.py
@@ -330,7 +330,7 @@ class Iat(Ilocation):
 class VirtualColumns:
     def __init__(self, triangle, columns=None):
         self.triangle = triangle
-        self.columns = {} if not columns else columns
+        self.columns = {} if not columns else dict(columns)
 
     def __getitem__(self, value):
         return self.columns[value](self.triangle).rename("columns", [value])
-- 
2.43.0


From e6b9d4eb829483857094dc94a3f848dd86e63583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 19/42] fix: floor of a sparse array returns a new array

---
 chainladder/utils/sparse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/utils/sparse.py b/chainladder/utils/sparse.py
index 50533d9..b1c3093 100644
--- a/chainladder/utils/sparse.py
+++ b/chainladder/utils/sparse.py
@@ -77,8 +77,7 @@ def cumprod(a, axis=None, dtype=None, out=None):
 
 
 def floor(x, *args, **kwargs):
-    x.data = np.floor(x.data)
-    return x
+    return elemwise(np.floor, x)
 
 
 
-- 
2.43.0


From 446db83b5ce0187a2117ef502cdaa9f91eb07984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 20/42] fix: unknown sigma_interpolation is rejected

---
 chainladder/utils/weighted_regression.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/utils/weighted_regression.py b/chainladder/utils/weighted_regression.py
index aec67d2..6abf61b 100644
--- a/chainladder/utils/weighted_regression.py
+++ b/chainladder/utils/weighted_regression.py
@@ -101,8 +101,10 @@ class WeightedRegression(BaseEstimator):
         """
         if interpolation == "log-linear":
             self.sigma_ = self.loglinear_interpolation(self.sigma_)
-        if interpolation == "mack":
+        elif interpolation == "mack":
             self.sigma_ = self.mack_interpolation(self.sigma_)
+        else:
+            raise ValueError(f"{interpolation} is not a valid sigma interpolation.")
         return self
 
     def std_err_fill(self):
-- 
2.43.0


From 8ef6b4a5693522af8977c69082233f11d459a7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:12 +0000
Subject: [PATCH 21/42] fix: unknown axis is rejected rather than read as the
 index

---
 chainladder/core/pandas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index d5c4268..7e91656 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -158,7 +158,9 @@ class TrianglePandas:
             **{-1: 3, -2: 2, -3: 1, -4: 0},
             **{"index": 0, "columns": 1, "origin": 2, "development": 3},
         }
-        return ax.get(axis, 0)
+        if axis not in ax:
+            raise ValueError(f"{axis} is not a valid Triangle axis.")
+        return ax[axis]
 
     def dropna(self):
         """Method that removes orgin/development vectors from edge of a
-- 
2.43.0


From f9673d36163947bfe697a539631ec13542c463ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 22/42] fix: concat does not replace elements of the list
 passed in

---
 chainladder/utils/utility_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index ac51989..2787e2a 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -299,8 +299,7 @@ def concat(
     """
     if type(objs) not in (list, tuple):
         raise TypeError("objects to be concatenated must be in a list or tuple")
-    if type(objs) is tuple:
-        objs = list(objs)
+    objs = list(objs)
     if len(objs) == 0:
         raise ValueError("objs must contain at least one element")
     xp = objs[0].get_array_module()
-- 
2.43.0


From 4cd5a3780b36aecff9c7e0b47174eefabebd8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 23/42] fix: building a Triangle from a DataFrame subclass
 leaves the frame unchanged

---
 chainladder/core/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index 122e878..5bb5b69 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -84,9 +84,9 @@ class TriangleBase(
     def _aggregate_data(data, origin_date, development_date, index, columns):
         """Summarize dataframe to the level specified in axes"""
         if type(data) != pd.DataFrame:
-            # Dask dataframes are mutated
-            data["__origin__"] = origin_date
-            data["__development__"] = development_date
+            data = data.assign(
+                __origin__=origin_date, __development__=development_date
+            )
             key_gr = ["__origin__", "__development__"] + [
                 data[item] for item in ([] if not index else index)
             ]
-- 
2.43.0


From 019df1881ee4e23c86a0987df324a3b3e78a8636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:10 +0000
Subject: [PATCH 24/42] fix: rename returns a relabeled triangle without
 relabeling the original

---
 chainladder/core/pandas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index 7e91656..752d3f5 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -290,15 +290,16 @@ class TrianglePandas:
             Triangle with relabeled axis.
         """
         value = [value] if type(value) is str else value
+        obj = self.copy()
         if axis == "index" or axis == 0:
-            self.index = value
+            obj.index = value
         if axis == "columns" or axis == 1:
-            self.columns = value
+            obj.columns = value
         if axis == "origin" or axis == 2:
-            self.origin = value
+            obj.origin = value
         if axis == "development" or axis == 3:
-            self.development = value
-        return self
+            obj.development = value
+        return obj
 
     def astype(self, dtype, inplace=True):
         """Copy of the array, cast to a specified type.
-- 
2.43.0


From 570bd950259eba40c1a99b1ca7325d0ee7f8f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 25/42] fix: inplace=True of cum_to_incr, dev_to_val,
 val_to_dev and grain updates the instance

---
 chainladder/core/triangle.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 55303c3..985defc 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -499,17 +499,18 @@ class Triangle(TriangleBase):
                     self.values = xp.nan_to_num(self.values)
                     values = num_to_value(self.values, 1)
                     diff = self.iloc[..., :-1] / self.iloc[..., 1:].values
-                    self = concat(
+                    obj = concat(
                         (
                             diff,
                             self.iloc[..., -1],
                         ),
                         axis=3,
                     )
-                    self.values = self.values * self.nan_triangle
+                    obj.values = obj.values * obj.nan_triangle
                 else:
                     diff = self.iloc[..., 1:] - self.iloc[..., :-1].values
-                    self = concat((self.iloc[..., 0], diff), axis=3)
+                    obj = concat((self.iloc[..., 0], diff), axis=3)
+                self._update(obj)
                 self.is_cumulative = False
             self.valuation_date = v
             return self
@@ -517,6 +518,12 @@ class Triangle(TriangleBase):
             new_obj = self.copy()
             return new_obj.cum_to_incr(inplace=True)
 
+    def _update(self, obj):
+        """Takes over the state of another triangle"""
+        self.__dict__.update(vars(obj))
+        self._set_slicers()
+        return self
+
     def _dstep(self):
         return {
             "M": {"Y": 12, "S": 6, "Q": 3, "M": 1},
@@ -575,10 +582,12 @@ class Triangle(TriangleBase):
                 return self
             else:
                 return self.copy()
+        if inplace:
+            return self._update(self.dev_to_val())
         is_cumulative = self.is_cumulative
         if self.is_full:
             if is_cumulative:
-                obj = self.cum_to_incr(inplace=inplace)
+                obj = self.cum_to_incr()
             else:
                 obj = self.copy()
             if self.is_ultimate:
@@ -586,7 +595,7 @@ class Triangle(TriangleBase):
                 obj = obj.iloc[..., :-1]
         else:
             obj = self
-        obj = obj._val_dev(1, inplace)
+        obj = obj._val_dev(1)
         ddims = obj.valuation[obj.valuation <= obj.valuation_date]
         obj.ddims = ddims.drop_duplicates().sort_values()
         if self.is_full:
@@ -594,7 +603,7 @@ class Triangle(TriangleBase):
                 ultimate.ddims = pd.DatetimeIndex(ultimate.valuation[0:1])
                 obj = concat((obj, ultimate), -1)
             if is_cumulative:
-                obj = obj.incr_to_cum(inplace=inplace)
+                obj = obj.incr_to_cum()
         return obj
 
     def val_to_dev(self, inplace=False):
@@ -616,12 +625,14 @@ class Triangle(TriangleBase):
                 return self
             else:
                 return self.copy()
+        if inplace:
+            return self._update(self.val_to_dev())
         if self.is_ultimate and self.shape[-1] > 1:
             ultimate = self.iloc[..., -1:]
             ultimate.ddims = np.array([9999])
-            obj = self.iloc[..., :-1]._val_dev(-1, inplace)
+            obj = self.iloc[..., :-1]._val_dev(-1)
         else:
-            obj = self.copy()._val_dev(-1, inplace)
+            obj = self.copy()._val_dev(-1)
         val_0 = obj.valuation[0]
         if self.ddims.shape[-1] == 1 and self.ddims[0] == self.valuation_date:
             origin_0 = pd.to_datetime(obj.odims[-1])
@@ -751,8 +762,7 @@ class Triangle(TriangleBase):
         obj = obj.dev_to_val() if self.is_val_tri else obj.val_to_dev()
 
         if inplace:
-            self = obj
-            return self
+            return self._update(obj)
 
         return obj
 
-- 
2.43.0


From 190bddd8696873fc0edea86d469ce1029c17009d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 26/42] fix: set_backend(inplace=True) from dask updates the
 instance

---
 chainladder/core/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index bd58234..7f91e90 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -159,7 +159,8 @@ class Common:
             # Coming from dask - compute and then recall this method
             # going to dask  -
             if old_backend == "dask" and backend != "dask":
-                self = self.compute()
+                obj = self.compute()
+                self.values, self.array_backend = obj.values, obj.array_backend
                 old_backend = self.array_backend
             if backend in ["numpy", "sparse", "cupy", "dask"]:
                 lookup = {
-- 
2.43.0


From ca463ba2423de5ff7878b1659b32f69aa2b4874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:13 +0000
Subject: [PATCH 27/42] fix: MunichAdjustment keeps paid_to_incurred as given

---
 chainladder/development/munich.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/chainladder/development/munich.py b/chainladder/development/munich.py
index a96335e..9efee6f 100644
--- a/chainladder/development/munich.py
+++ b/chainladder/development/munich.py
@@ -54,7 +54,6 @@ class MunichAdjustment(DevelopmentBase):
             warnings.warn(
                 "paid_to_incurred dict argument is deprecated, use tuple instead"
             )
-            paid_to_incurred = [(k, v) for k, v in paid_to_incurred.items()]
         self.paid_to_incurred = paid_to_incurred
         self.fillna = fillna
 
@@ -113,7 +112,7 @@ class MunichAdjustment(DevelopmentBase):
         self.ldf_.valuation_date = pd.to_datetime(options.ULT_VAL)
         self._map = {
             (list(X.columns).index(x)): (num % 2, num // 2)
-            for num, x in enumerate(np.array(self.paid_to_incurred).flatten())
+            for num, x in enumerate(np.array(self._paid_incurred_pairs()).flatten())
         }
         self.rho_.values = self._reshape("rho_sigma_")
         return self
@@ -162,11 +161,15 @@ class MunichAdjustment(DevelopmentBase):
         X_new.sigma_ = X_new.std_err_ = X_new.ldf_ * 0 + 1
         return X_new
 
-    def _get_p_to_i_object(self, obj):
+    def _paid_incurred_pairs(self):
         if type(self.paid_to_incurred) is tuple:
-            p_to_i = [self.paid_to_incurred]
-        else:
-            p_to_i = self.paid_to_incurred
+            return [self.paid_to_incurred]
+        if type(self.paid_to_incurred) is dict:
+            return list(self.paid_to_incurred.items())
+        return self.paid_to_incurred
+
+    def _get_p_to_i_object(self, obj):
+        p_to_i = self._paid_incurred_pairs()
         xp = obj.get_array_module()
         paid = obj[[item[0] for item in p_to_i][0]]
         for item in [item[0] for item in p_to_i][1:]:
@@ -326,10 +329,7 @@ class MunichAdjustment(DevelopmentBase):
         obj = X.cdf_.copy()
         obj.values = xp.repeat(obj.values, len(X.odims), 2)
         obj.odims = X.odims
-        if type(self.paid_to_incurred) is tuple:
-            p_to_i = [self.paid_to_incurred]
-        else:
-            p_to_i = self.paid_to_incurred
+        p_to_i = self._paid_incurred_pairs()
         cdf_triangle = munich_full_triangle_
         cdf_triangle = cdf_triangle[..., -1:] / cdf_triangle[..., :-1]
         paid = [item[0] for item in p_to_i]
-- 
2.43.0


From aa65864d2c830f6463b81aa48e7e7ef58772af4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 28/42] fix: rename and drop understand every axis name and
 reject unknown ones

---
 chainladder/core/pandas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/chainladder/core/pandas.py b/chainladder/core/pandas.py
index 752d3f5..977c06a 100644
--- a/chainladder/core/pandas.py
+++ b/chainladder/core/pandas.py
@@ -232,7 +232,7 @@ class TrianglePandas:
 
         """
         labels = [labels] if type(labels) is str else list(labels)
-        if axis == 1:
+        if self._get_axis(axis) == 1:
             return self[[item for item in self.columns if item not in labels]]
         else:
             raise NotImplementedError("drop only inpemented for column axis")
@@ -290,14 +290,15 @@ class TrianglePandas:
             Triangle with relabeled axis.
         """
         value = [value] if type(value) is str else value
+        axis = self._get_axis(axis)
         obj = self.copy()
-        if axis == "index" or axis == 0:
+        if axis == 0:
             obj.index = value
-        if axis == "columns" or axis == 1:
+        if axis == 1:
             obj.columns = value
-        if axis == "origin" or axis == 2:
+        if axis == 2:
             obj.origin = value
-        if axis == "development" or axis == 3:
+        if axis == 3:
             obj.development = value
         return obj
 
-- 
2.43.0


From f5f17de90e8bf5a79913eefbce5e9b8a7111ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 29/42] fix: refitting ClarkLDF or a tail drops results the new
 fit does not have

---
 chainladder/development/clark.py | 2 ++
 chainladder/tails/base.py        | 4 ++++
 chainladder/tails/clark.py       | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/chainladder/development/clark.py b/chainladder/development/clark.py
index e38cf25..69ee822 100644
--- a/chainladder/development/clark.py
+++ b/chainladder/development/clark.py
@@ -204,6 +204,8 @@ class ClarkLDF(DevelopmentBase):
         self.theta_ = pd.DataFrame(params[..., 0, 1], index=rows, columns=X.vdims)
         if sample_weight:
             self.elr_ = pd.DataFrame(params[..., 0, 2], index=rows, columns=X.vdims)
+        elif hasattr(self, "elr_"):
+            del self.elr_
         ultimate_ = (
             xp.swapaxes(self._G(age=(latest_age - age_offset)[::-1]), -1, -2)
             * ld.values
diff --git a/chainladder/tails/base.py b/chainladder/tails/base.py
index e46054c..79d4663 100644
--- a/chainladder/tails/base.py
+++ b/chainladder/tails/base.py
@@ -38,6 +38,10 @@ class TailBase(DevelopmentBase):
             self.sigma_.ddims = self.std_err_.ddims = self.ldf_.ddims[:obj.shape[2]]
             self.sigma_._set_slicers()
             self.std_err_._set_slicers()
+        else:
+            for item in ("sigma_", "std_err_"):
+                if hasattr(self, item):
+                    delattr(self, item)
         if hasattr(obj, "average_"):
             self.average_ = obj.average_
         else:
diff --git a/chainladder/tails/clark.py b/chainladder/tails/clark.py
index 052c2e6..bc73ed4 100644
--- a/chainladder/tails/clark.py
+++ b/chainladder/tails/clark.py
@@ -102,6 +102,8 @@ class TailClark(TailBase):
         self.incremental_fits_ = model.incremental_fits_
         if hasattr(model, "elr_"):
             self.elr_ = model.elr_
+        elif hasattr(self, "elr_"):
+            del self.elr_
         self.norm_resid_ = model.norm_resid_
         if self.truncation_age:
             self.ldf_.values[..., -1:] = self.ldf_.values[..., -1:] * self.G_(self.truncation_age).values
-- 
2.43.0


From ce14d4e6a6ef81891b1aa304f56b9110acf1df6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 30/42] fix: BootstrapODPSample leaves no stray had_adj
 attribute behind

---
 chainladder/adjustments/bootstrap.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/chainladder/adjustments/bootstrap.py b/chainladder/adjustments/bootstrap.py
index fdcdaaf..44ab50d 100644
--- a/chainladder/adjustments/bootstrap.py
+++ b/chainladder/adjustments/bootstrap.py
@@ -110,7 +110,6 @@ class BootstrapODPSample(DevelopmentBase):
                     self.hat_ = self._get_hat(X, exp_incr_triangle)
                 except:
                     warn("Could not compute hat matrix.  Setting hat_adj to False")
-                    self.had_adj = False
                     self.hat_ = None
             else:
                 self.hat_ = None
-- 
2.43.0


From dff0ac061934323e51d0e1ab20571b4ef833ff4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 31/42] fix: operations that change nothing return a copy, not
 the triangle itself

---
 chainladder/core/base.py     | 2 +-
 chainladder/core/dunders.py  | 6 +++---
 chainladder/core/triangle.py | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index 5bb5b69..d8de3bf 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -471,7 +471,7 @@ class TriangleBase(
             if m == np:
                 obj.array_backend = "numpy"
             return obj
-        return self
+        return self.copy()
 
     def _get_axis_value(self, axis):
         axis = self._get_axis(axis)
diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 532062d..5976e00 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -252,7 +252,7 @@ class TriangleDunders:
         return self._arithmetic_cleanup(obj)
 
     def __radd__(self, other):
-        return self if other == 0 else self.__add__(other)
+        return self.copy() if other == 0 else self.__add__(other)
 
     def __sub__(self, other):
         obj, other = self._validate_arithmetic(other)
@@ -281,7 +281,7 @@ class TriangleDunders:
         return obj
 
     def __pos__(self):
-        return self
+        return self.copy()
 
     def __abs__(self):
         obj = self.copy()
@@ -301,7 +301,7 @@ class TriangleDunders:
         return obj
 
     def __rmul__(self, other):
-        return self if other == 1 else self.__mul__(other)
+        return self.copy() if other == 1 else self.__mul__(other)
 
     def __pow__(self, other):
         obj, other = self._validate_arithmetic(other)
diff --git a/chainladder/core/triangle.py b/chainladder/core/triangle.py
index 985defc..13150a3 100644
--- a/chainladder/core/triangle.py
+++ b/chainladder/core/triangle.py
@@ -418,7 +418,7 @@ class Triangle(TriangleBase):
             obj.values = num_to_nan(obj.values)
             return obj
         else:
-            return self
+            return self.copy()
 
     @property
     def age_to_age(self):
@@ -842,7 +842,7 @@ class Triangle(TriangleBase):
             Broadcast axis is deprecated in favor of broadcasting
             using Triangle arithmetic."""
         )
-        return self
+        return self.copy()
 
     def copy(self):
         X = object.__new__(self.__class__)
@@ -917,7 +917,7 @@ class Triangle(TriangleBase):
                 "Lagging only supported for origin and development axes"
             )
         if periods == 0:
-            return self
+            return self.copy()
         if periods > 0:
             if axis == 3:
                 out = concat(
-- 
2.43.0


From 12e7f621716b593e51de38017fa1aae160438b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 32/42] fix: docstrings list the attributes under their real
 names

---
 chainladder/development/incremental.py | 2 +-
 chainladder/methods/capecod.py         | 4 ++--
 chainladder/tails/curve.py             | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/chainladder/development/incremental.py b/chainladder/development/incremental.py
index fb0537e..dc399c8 100644
--- a/chainladder/development/incremental.py
+++ b/chainladder/development/incremental.py
@@ -50,7 +50,7 @@ class IncrementalAdditive(DevelopmentBase):
     tri_zeta: Triangle
         The raw incrementals as a percent of exposure trended to the valuation
         date of the Triangle.
-    fit_zeta: Triangle
+    fit_zeta_: Triangle
         The raw incrementals as a percent of exposure trended to the valuation
         date of the Triangle. Only those used in the fitting.
     zeta_: Triangle
diff --git a/chainladder/methods/capecod.py b/chainladder/methods/capecod.py
index 8678566..7240b76 100644
--- a/chainladder/methods/capecod.py
+++ b/chainladder/methods/capecod.py
@@ -38,8 +38,8 @@ class CapeCod(Benktander):
 
     Attributes
     ----------
-    triangle:
-        returns **X**
+    X_:
+        returns **X** used to fit the triangle
     ultimate_:
         The ultimate losses per the method
     ibnr_:
diff --git a/chainladder/tails/curve.py b/chainladder/tails/curve.py
index b05ee43..9c9607b 100644
--- a/chainladder/tails/curve.py
+++ b/chainladder/tails/curve.py
@@ -53,7 +53,7 @@ class TailCurve(TailBase):
         Point estimate of tail at latest maturity available in the Triangle.
     slope_ : DataFrame
         Slope parameter of the curve fit.
-    intercept : DataFrame
+    intercept_ : DataFrame
         Intercept parameter of the curve fit.
     """
 
-- 
2.43.0


From 6e1399ae625c4e4decf0e11d3da275ea2a5d68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 33/42] fix: full_expectation_ of a predicted triangle raised
 AttributeError

---
 chainladder/core/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index 7f91e90..fa53524 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -112,7 +112,8 @@ class Common:
                 + "' object has no attribute 'full_expectation_'"
             )
 
-        return _get_full_expectation(self.cdf_, self.ultimate_, self.X_.is_cumulative)
+        X = self.X_ if hasattr(self, "X_") else self
+        return _get_full_expectation(self.cdf_, self.ultimate_, X.is_cumulative)
 
     @property
     def full_triangle_(self):
-- 
2.43.0


From 0f880f866f137258cc6ec42ba6e79ad33c26774c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 34/42] fix: MackChainladder.predict uses the variances of the
 fit, also when the new triangle carries its own

---
 chainladder/methods/mack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/chainladder/methods/mack.py b/chainladder/methods/mack.py
index 09bf479..79a5983 100644
--- a/chainladder/methods/mack.py
+++ b/chainladder/methods/mack.py
@@ -72,10 +72,10 @@ class MackChainladder(Chainladder):
 
     def predict(self, X, sample_weight=None):
         X_new = super().predict(X, sample_weight)
-        X_new.sigma_ = getattr(X_new, "sigma_", self.X_.sigma_)
-        X_new.std_err_ = getattr(X_new, "std_err_", self.X_.std_err_)
-        X_new.average_ = getattr(X_new, "average_", self.X_.average_)
-        X_new.w_ = getattr(X_new, "w_", self.X_.w_)
+        X_new.sigma_ = self.X_.sigma_
+        X_new.std_err_ = self.X_.std_err_
+        X_new.average_ = self.X_.average_
+        X_new.w_ = self.X_.w_
         X_new._full_triangle_ = X_new.full_triangle_
         X_new.parameter_risk_ = self._mack_recursion("parameter_risk_", X_new)
         X_new.process_risk_ = self._mack_recursion("process_risk_", X_new)
-- 
2.43.0


From 76abe7bef134f47c7343f7bfa375e16d2051ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:59 +0000
Subject: [PATCH 35/42] fix: read_json(to_json()) restores tuples, keys that
 are not text, nested estimators and every pipeline option

---
 chainladder/core/io.py                 | 39 ++++++++++++++++++++++++--
 chainladder/utils/utility_functions.py |  4 ++-
 chainladder/workflow/gridsearch.py     | 13 ---------
 3 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index d49e3cf..366248c 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -2,12 +2,46 @@
 # License, v. 2.0. If a copy of the MPL was not distributed with this
 # file, You can obtain one at https://mozilla.org/MPL/2.0/.
 import pandas as pd
-from sklearn.base import BaseEstimator
 import json
 import joblib
 import dill
 
 
+def _to_jsonable(value):
+    """ JSON form of an option.  JSON itself knows neither estimators nor tuples
+    nor keys other than text. """
+    if isinstance(value, EstimatorIO):
+        return {"__estimator__": value.to_json()}
+    if isinstance(value, tuple):
+        return {"__tuple__": [_to_jsonable(item) for item in value]}
+    if isinstance(value, list):
+        return [_to_jsonable(item) for item in value]
+    if isinstance(value, dict):
+        return {
+            "__dict__": [[_to_jsonable(k), _to_jsonable(v)] for k, v in value.items()]
+        }
+    return value
+
+
+def _from_jsonable(value):
+    """ Inverse of _to_jsonable """
+    if isinstance(value, list):
+        return [_from_jsonable(item) for item in value]
+    if isinstance(value, dict):
+        if "__estimator__" in value:
+            from chainladder.utils.utility_functions import read_json
+
+            return read_json(value["__estimator__"])
+        if "__tuple__" in value:
+            return tuple([_from_jsonable(item) for item in value["__tuple__"]])
+        if "__dict__" in value:
+            return {
+                _from_jsonable(k): _from_jsonable(v) for k, v in value["__dict__"]
+            }
+        return {k: _from_jsonable(v) for k, v in value.items()}
+    return value
+
+
 class TriangleIO:
     def to_pickle(self, path, protocol=None):
         """ Serializes triangle object to pickle.
@@ -77,6 +111,5 @@ class EstimatorIO:
             string representation of object in json format
         """
         params = self.get_params(deep=False)
-        j = lambda v: v.to_json() if isinstance(v, BaseEstimator) else v
-        params = {k: j(v) for k, v in params.items()}
+        params = {k: _to_jsonable(v) for k, v in params.items()}
         return json.dumps({"params": params, "__class__": self.__class__.__name__})
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 2787e2a..97e459f 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -90,6 +90,7 @@ def read_pickle(path):
 
 def read_json(json_str, array_backend=None):
     from chainladder import Triangle
+    from chainladder.core.io import _from_jsonable
     from chainladder.workflow import Pipeline
 
     if array_backend is None:
@@ -149,7 +150,8 @@ def read_json(json_str, array_backend=None):
     else:
         import chainladder as cl
 
-        return cl.__dict__[json_dict["__class__"]]().set_params(**json_dict["params"])
+        params = {k: _from_jsonable(v) for k, v in json_dict["params"].items()}
+        return cl.__dict__[json_dict["__class__"]](**params).set_params(**params)
 
 
 def parallelogram_olf(
diff --git a/chainladder/workflow/gridsearch.py b/chainladder/workflow/gridsearch.py
index 227a84f..014071b 100644
--- a/chainladder/workflow/gridsearch.py
+++ b/chainladder/workflow/gridsearch.py
@@ -8,7 +8,6 @@ from sklearn.base import clone
 from chainladder.core.io import EstimatorIO
 from joblib import Parallel, delayed
 import pandas as pd
-import json
 
 
 class GridSearch(BaseEstimator):
@@ -157,15 +156,3 @@ class Pipeline(PipelineSL, EstimatorIO):
     def fit_predict(self, X, y=None, sample_weight=None, **fit_params):
         self.fit(X, y, sample_weight, **fit_params)
         return self.predict(X, sample_weight, **fit_params)
-
-    def to_json(self):
-        return json.dumps(
-            [
-                {
-                    "name": item[0],
-                    "params": item[1].get_params(),
-                    "__class__": item[1].__class__.__name__,
-                }
-                for item in self.steps
-            ]
-        )
-- 
2.43.0


From cf099029cfe5dea1b68cf67451ffd29ac238f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 36/42] fix: read_json(to_json()) restores the valuation date
 of patterns

---
 chainladder/core/io.py                 | 1 +
 chainladder/utils/utility_functions.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/chainladder/core/io.py b/chainladder/core/io.py
index 366248c..f1f8fc3 100644
--- a/chainladder/core/io.py
+++ b/chainladder/core/io.py
@@ -69,6 +69,7 @@ class TriangleIO:
             "is_cumulative": self.is_cumulative,
             "is_pattern": self.is_pattern,
             "columns": list(self.columns),
+            "valuation_date": str(self.valuation_date),
         }
         out = self.cum_to_incr().dev_to_val().to_frame(
             keepdims=True, origin_as_datetime=True).fillna(0)
diff --git a/chainladder/utils/utility_functions.py b/chainladder/utils/utility_functions.py
index 97e459f..5699420 100644
--- a/chainladder/utils/utility_functions.py
+++ b/chainladder/utils/utility_functions.py
@@ -132,6 +132,8 @@ def read_json(json_str, array_backend=None):
         if json.loads(j["metadata"])["is_cumulative"]:
             tri = tri.incr_to_cum()
         tri = tri[json.loads(j["metadata"])["columns"]].sort_index()
+        if "valuation_date" in json.loads(j["metadata"]):
+            tri.valuation_date = pd.Timestamp(json.loads(j["metadata"])["valuation_date"])
         if "sub_tris" in json_dict.keys():
             for k, v in json_dict["sub_tris"].items():
                 setattr(tri, k, read_json(v, array_backend))
-- 
2.43.0


From 00bc0f11f3f925d4db5821b986b45774e0f51384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:44 +0000
Subject: [PATCH 37/42] fix: BerquistSherman.set_params accepts any subset of
 the options

---
 chainladder/adjustments/berqsherm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainladder/adjustments/berqsherm.py b/chainladder/adjustments/berqsherm.py
index a86bbb4..50ec220 100644
--- a/chainladder/adjustments/berqsherm.py
+++ b/chainladder/adjustments/berqsherm.py
@@ -213,7 +213,7 @@ class BerquistSherman(BaseEstimator, TransformerMixin, EstimatorIO):
     def set_params(self, **params):
         from chainladder.utils.utility_functions import read_json
 
-        if type(params["reported_count_estimator"]) is str:
+        if type(params.get("reported_count_estimator")) is str:
             params["reported_count_estimator"] = read_json(
                 params["reported_count_estimator"]
             )
-- 
2.43.0


From 725f5d46a47407623c96f813d53bab2223857ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 38/42] fix: arithmetic with a triangle holding a subset of the
 columns raised UnboundLocalError

---
 chainladder/core/dunders.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/chainladder/core/dunders.py b/chainladder/core/dunders.py
index 5976e00..1c72276 100644
--- a/chainladder/core/dunders.py
+++ b/chainladder/core/dunders.py
@@ -124,8 +124,7 @@ class TriangleDunders:
                 y = y.reindex(columns=new_y_cols, fill_value=0)
             
             # Ensure both triangles have the same column order
-            x = x[new_x_cols]
-            y = y[new_x_cols]
+            y = y[list(x.columns)]
         
         # Reset backends only if they've changed
         if x.array_backend != x_backend:
-- 
2.43.0


From f960b935042f5f626ed49a0acdd23fa2914ecd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 39/42] fix: period assumptions given as numpy scalars, or of
 an unknown type, raised UnboundLocalError

---
 chainladder/core/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/chainladder/core/common.py b/chainladder/core/common.py
index fa53524..91ae887 100644
--- a/chainladder/core/common.py
+++ b/chainladder/core/common.py
@@ -202,14 +202,16 @@ class Common:
             return obj.set_backend(backend=backend, inplace=True, deep=deep, **kwargs)
     
     def _validate_assumption(self, triangle, value, axis):
-        if type(value) in (int, float, str):
+        if isinstance(value, (int, float, str, np.generic)):
             arr = np.repeat(value, triangle.shape[axis])
-        if type(value) in (list, tuple, set, np.ndarray):
+        elif type(value) in (list, tuple, set, np.ndarray):
             arr = np.array(value)
-        if type(value) is dict:
+        elif type(value) is dict:
             arr = np.array([value[a] for a in triangle._get_axis_value(axis)])
-        if callable(value):
+        elif callable(value):
             arr = np.array([value(a) for a in triangle._get_axis_value(axis)])
+        else:
+            raise ValueError(f"Assumptions of {type(value)} are not supported.")
         if axis == 3:
             arr = arr[None, None, None]
         if axis == 2:
-- 
2.43.0


From 453546994112ab3f4561bb6148ebb0101332a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 40/42] fix: dates that cannot be inferred raised
 UnboundLocalError instead of a ValueError

---
 chainladder/core/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainladder/core/base.py b/chainladder/core/base.py
index d8de3bf..a8e8bc5 100644
--- a/chainladder/core/base.py
+++ b/chainladder/core/base.py
@@ -252,6 +252,8 @@ class TriangleBase(
                     break
                 except:
                     pass
+            else:
+                raise ValueError(f"Unable to infer dates from {list(fields)}.")
 
             target = target_field.map(arr)
 
-- 
2.43.0


From b587e0f6f7280414f7684d8b76d09ab69204d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 41/42] fix: DevelopmentML with another kind of y_ml raised
 UnboundLocalError instead of a ValueError

---
 chainladder/development/learning.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/chainladder/development/learning.py b/chainladder/development/learning.py
index dd711ec..652e9b5 100644
--- a/chainladder/development/learning.py
+++ b/chainladder/development/learning.py
@@ -59,14 +59,16 @@ class DevelopmentML(DevelopmentBase):
         """ private function to get the response column name"""
         if not self.y_ml:
             y_names = self._columns
-        if hasattr(self.y_ml, '_columns'):
+        elif hasattr(self.y_ml, '_columns'):
             y_names = self.y_ml._columns
         elif isinstance(self.y_ml, ColumnTransformer):
             y_names = self.y_ml.transformers[0][-1]
-        if type(self.y_ml) is list:
+        elif type(self.y_ml) is list:
             y_names = self.y_ml
         elif type(self.y_ml) is str:
             y_names = [self.y_ml]
+        else:
+            raise ValueError("y_ml must name columns or be a ColumnTransformer.")
         return y_names
 
 
-- 
2.43.0


From bec11cae05074807624a9fcc8dd6509d3cdae3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:10 +0000
Subject: [PATCH 42/42] fix: VotingChainladder weights of five dimensions
 raised UnboundLocalError instead of a ValueError

---
 chainladder/workflow/voting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainladder/workflow/voting.py b/chainladder/workflow/voting.py
index 4904d51..92769ea 100644
--- a/chainladder/workflow/voting.py
+++ b/chainladder/workflow/voting.py
@@ -98,7 +98,7 @@ class _BaseChainladderVoting(_BaseVoting, _BaseTriangleEnsemble):
     def _broadcast_weights(self, X):
         if self.weights_.ndim == 3:
             weights = np.repeat(self.weights_[np.newaxis, ...], X.shape[1], axis=0)
-        if self.weights_.ndim == 4:
+        else:
             weights = np.repeat(self.weights_[np.newaxis, ...], X.shape[0], axis=0)
         return weights
 
@@ -340,6 +340,8 @@ class VotingChainladder(_BaseChainladderVoting, MethodBase):
                                  f' {self.weights_.shape[1]} for weights'
                                  f' and {X.shape[1]} for X.')
             weights = self.weights_
+        else:
+            raise ValueError('Weights may not have more than four dimensions.')
 
         ultimate = sum([
                 est.predict(X, sample_weight).ultimate_ * weights[..., i, :]
-- 
2.43.0

