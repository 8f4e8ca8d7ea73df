From c7a7b8722af8ebd9b4d2e97ccd80f6b04f2f2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:24 +0000
Subject: [PATCH 01/53] fix: keep the global scale of logit models finite for
 almost pure positive targets

The small constant added to the target mean pushed the mean above 1 when
more than 99.9% of the labels are positive. The logit of that value is not
a number and so were all predictions.
---
 cyclic_boosting/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 98d11f1..3cff90b 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -16,7 +16,7 @@ from cyclic_boosting import common_smoothers, learning_rate, link
 from cyclic_boosting.binning import get_feature_column_names_or_indices
 from cyclic_boosting.common_smoothers import SmootherChoice
 from cyclic_boosting.features import create_features, Feature, FeatureList, FeatureTypes, create_feature_id
-from cyclic_boosting.link import IdentityLinkMixin, LogLinkMixin
+from cyclic_boosting.link import IdentityLinkMixin, LogitLinkMixin, LogLinkMixin
 from cyclic_boosting.utils import (
     slice_finite_semi_positive,
     nans,
@@ -405,7 +405,11 @@ class CyclicBoostingBase(
             raise RuntimeError("The weights have to be initialized.")
 
         minimal_prediction = 0.001
-        self.global_scale_link_ = self.link_func(np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction)
+        global_scale = np.sum(y * self.weights) / np.sum(self.weights) + minimal_prediction
+        if isinstance(self, LogitLinkMixin):
+            # stay below 1, where the logit link is not finite
+            global_scale = np.minimum(global_scale, 1.0 - minimal_prediction)
+        self.global_scale_link_ = self.link_func(global_scale)
 
         if self.prior_prediction_column is not None:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-- 
2.43.0


From 9ac5edc800b3cfe79f36c530275fc1d73ebf0075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:24 +0000
Subject: [PATCH 02/53] fix: train CBLocPoissonRegressor on constant targets

A constant target has a standard deviation of zero, which turned all
regularized summands into NaN and made some smoothers raise.
---
 cyclic_boosting/location.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index 15e2ad8..f385655 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -24,6 +24,8 @@ class CBLocPoissonRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, Ide
         weights = self.weights
 
         global_std = weighted_stddev(y, weights)
+        if global_std <= 1e-9:  # No variation in y
+            global_std = 1.0
         y_sum = np.bincount(lex_binnumbers, weights=y * weights, minlength=minlength)
         bincount = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
         return y_sum, bincount, global_std
-- 
2.43.0


From dcf73279ce15a82a5bac2fe640c0ba1059374b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:57 +0000
Subject: [PATCH 03/53] fix: keep the bin variance of CBLocationRegressor
 finite for bins without weight

---
 cyclic_boosting/location.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index f385655..a148b87 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -117,7 +117,7 @@ def precalc_variance_y(feature, y, weights, n_prior=1):
 
     sum_y = np.bincount(lex_binnumbers, weights=weights * y, minlength=minlength)
     sum_weights = np.bincount(lex_binnumbers, weights=weights, minlength=minlength)
-    mean_y = sum_y[lex_binnumbers] / sum_weights[lex_binnumbers]
+    mean_y = (sum_y / np.where(sum_weights > 0, sum_weights, 1.0))[lex_binnumbers]
     weighted_squared_residual_sum = np.bincount(
         lex_binnumbers, weights=weights * (y - mean_y) ** 2, minlength=minlength
     )
-- 
2.43.0


From 26cf99ade502b5a407bb8e5d591429e3ea2cd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:57 +0000
Subject: [PATCH 04/53] fix: keep factors of generic loss models positive
 before taking the logarithm

---
 cyclic_boosting/generic_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index c8963fa..cfaebc6 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -92,7 +92,7 @@ class CBGenericLoss(CyclicBoostingBase):
         neutral_factor = self.unlink_func(np.array(self.neutral_factor_link))
         if neutral_factor != 0:
             epsilon = 1e-5
-            parameters = np.where(np.abs(parameters) < epsilon, epsilon, parameters)
+            parameters = np.where(parameters < epsilon, epsilon, parameters)
             parameters = np.log(parameters)
 
         return parameters, uncertainties
-- 
2.43.0


From 2ed279ba0d339c27088880a99d35db79a0508ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:57 +0000
Subject: [PATCH 05/53] fix: finite uncertainty of additive generic loss models
 for bins without weight

---
 cyclic_boosting/generic_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index cfaebc6..a3e9b95 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -548,10 +548,11 @@ def uncertainty_gamma(y: np.ndarray, weights: np.ndarray) -> float:
 
 def uncertainty_gaussian(y: np.ndarray, weights: np.ndarray) -> float:
     sum_weights = np.sum(weights)
-    weighted_mean_y = np.sum(y * weights) / sum_weights
+    norm = sum_weights if sum_weights > 0 else 1.0
+    weighted_mean_y = np.sum(y * weights) / norm
     weighted_squared_residual_sum = np.sum(weights * (y - weighted_mean_y) ** 2)
 
-    variance_prior = weighted_squared_residual_sum / sum_weights
+    variance_prior = weighted_squared_residual_sum / norm
     if variance_prior <= 1e-9:
         variance_prior = 1.0
 
-- 
2.43.0


From 42de0c2a889b3823925ee23ce5fc39f9ef3d987c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:57 +0000
Subject: [PATCH 06/53] fix: keep bins of generic loss models aligned when
 several bins are empty

---
 cyclic_boosting/generic_loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index a3e9b95..a57eb6d 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -76,7 +76,7 @@ class CBGenericLoss(CyclicBoostingBase):
 
         # keep potential empty bins in multi-dimensional features
         all_bins = range(feature.n_bins)
-        empty_bins = list(set(bins) ^ set(all_bins))
+        empty_bins = sorted(set(bins) ^ set(all_bins))
         for i in empty_bins:
             y_pred_bins.insert(i, np.zeros((0, 3)))
 
-- 
2.43.0


From 50e10d8dca6f945707083a17d34734c37ee7a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:57 +0000
Subject: [PATCH 07/53] fix: do not remove contributions twice after divergence
 if aggregate is False

---
 cyclic_boosting/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 3cff90b..0d8481d 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -653,7 +653,8 @@ class CyclicBoostingBase(
     def feature_iteration(
         self, X: np.ndarray, y: np.ndarray, feature: Feature, pred: CBLinkPredictionsFactors, prefit_data
     ):
-        if not self.aggregate:
+        # in case of divergence, all contributions have been removed already
+        if not self.aggregate and not self.is_diverging:
             feature_predictions = self._pred_feature(X, feature, True)
             pred.remove_predictions(feature_predictions, feature)
 
-- 
2.43.0


From 692bdcab5218763bf4e0035d47dc0b3059d9dd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:57 +0000
Subject: [PATCH 08/53] fix: handle divergence while only the hierarchical
 features are trained

---
 cyclic_boosting/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 0d8481d..9601e7d 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -570,7 +570,8 @@ class CyclicBoostingBase(
 
             pred.remove_predictions(feature_predictions, feature)
 
-            feature.fitted_aggregated -= feature.factors_link
+            if feature.is_fitted:
+                feature.fitted_aggregated -= feature.factors_link
             feature.unbind_data()
 
     def _set_factors_per_feature(self, feature: Feature) -> Tuple[float, int]:
-- 
2.43.0


From a6be0fc1dcd029b8d431cd29640125b744256c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:09:57 +0000
Subject: [PATCH 09/53] fix: let fit_transform return the same predictions as
 fit followed by transform

---
 cyclic_boosting/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 9601e7d..a3ead66 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -869,7 +869,8 @@ class CyclicBoostingBase(
                 raise KeyError("""output_column "{}" exists already""".format(self.output_column))
         except AttributeError:
             raise TypeError("data needs to be a dataframe for the usage as a fit_transformer")
-        X[self.output_column] = self._fit_predict(X, y)
+        self.fit(X, y)
+        X[self.output_column] = self.predict(X)
         return X
 
     def transform(self, X: pd.DataFrame, y: Optional[np.ndarray] = None) -> pd.DataFrame:
-- 
2.43.0


From fe5642b125111b16cb124ccb56496c899dcb628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:10:06 +0000
Subject: [PATCH 10/53] fix: give bins without information a positive
 uncertainty in CBGBSRegressor

---
 cyclic_boosting/GBSregression.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/GBSregression.py b/cyclic_boosting/GBSregression.py
index 01c1596..2f3ac96 100644
--- a/cyclic_boosting/GBSregression.py
+++ b/cyclic_boosting/GBSregression.py
@@ -12,6 +12,7 @@ import pandas as pd
 
 from cyclic_boosting.base import CyclicBoostingBase, Feature, CBLinkPredictionsFactors
 from cyclic_boosting.link import IdentityLinkMixin
+from cyclic_boosting.utils import weighted_stddev
 from typing import Tuple, Union
 
 _logger = logging.getLogger(__name__)
@@ -88,6 +89,10 @@ class CBGBSRegressor(RegressorMixin, CyclicBoostingBase, IdentityLinkMixin):
         summand = sum_n / sum_d
         variance_summand = (sum_d**2 * sum_n2 - 2.0 * sum_n * sum_d * sum_nd + sum_n**2 * sum_d2) / sum_d**4
 
+        # bins without information get the spread of the target as uncertainty
+        std_y = weighted_stddev(y, self.weights)
+        variance_summand = np.where(variance_summand > 0, variance_summand, std_y**2 if std_y > 1e-9 else 1.0)
+
         return summand, np.sqrt(variance_summand)
 
     def _check_y(self, y: np.ndarray):
-- 
2.43.0


From 4eaf546d2798a22a78745b06901b90bf7147de71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:29 +0000
Subject: [PATCH 11/53] fix: calibrate CBLocationRegressor features without any
 weight in the finite bins

---
 cyclic_boosting/location.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/location.py b/cyclic_boosting/location.py
index a148b87..98309ff 100644
--- a/cyclic_boosting/location.py
+++ b/cyclic_boosting/location.py
@@ -219,9 +219,12 @@ class CBLocationRegressor(sklearn.base.RegressorMixin, CyclicBoostingBase, Ident
 
     def calibrate_to_weighted_mean(self, feature):
         if feature.missing_not_learned:
+            weightsum = feature.bin_weightsums[:-1].sum()
+            if weightsum == 0:  # no finite values in the training data
+                return feature.factors_link
             calibrated_factors_link = (
                 feature.factors_link[:-1]
-                - (feature.factors_link[:-1] * feature.bin_weightsums[:-1]).sum() / feature.bin_weightsums[:-1].sum()
+                - (feature.factors_link[:-1] * feature.bin_weightsums[:-1]).sum() / weightsum
             )
             calibrated_factors_link = np.append(calibrated_factors_link, self.neutral_factor_link)
         else:
-- 
2.43.0


From 1dae5b20af14a5f5c4f913c321fe98f8353fc789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:29 +0000
Subject: [PATCH 12/53] fix: ignore diverging features which have not been
 fitted before

---
 cyclic_boosting/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a3ead66..b21a31f 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -630,7 +630,10 @@ class CyclicBoostingBase(
                             feature.feature_group
                         )
                         warnings.warn(msg)
-                        feature.factors_link = -feature.fitted_aggregated
+                        if feature.is_fitted:
+                            feature.factors_link = -feature.fitted_aggregated
+                        else:
+                            feature.factors_link = np.zeros_like(feature.factors_link)
                         feature.smoother = ZeroSmoother()
                 elif check_diverged():
                     msg = "Feature factors for {} will be clipped due to diverging loss".format(feature.feature_group)
-- 
2.43.0


From b57a403d6b83fc9b50fc50448ed2272bf03a891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:20:02 +0000
Subject: [PATCH 13/53] fix: keep equal neighbours unchanged in
 regularize_to_error_weighted_mean_neighbors

---
 cyclic_boosting/utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index d82e56e..8e779d1 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -883,11 +883,14 @@ def regularize_to_error_weighted_mean_neighbors(
     sum_wx = np.convolve(wx, window_arr, "same")
     x_mean = np.convolve(wx * x, window_arr, "same") / sum_wx
 
-    wx_incl = np.ones(len(x))
+    spread = np.zeros(len(x))
     for i in range(len(x)):
-        wx_incl[i] = (sum_wx / np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same"))[i]
+        spread[i] = np.convolve(wx * np.square(x - x_mean[i]), window_arr, "same")[i]
+    # no regularization needed if all values of the window are the same
+    same = spread == 0
+    wx_incl = sum_wx / np.where(same, 1.0, spread)
 
-    res = (wx * x + wx_incl * x_mean) / (wx + wx_incl)
+    res = np.where(same, x_mean, (wx * x + wx_incl * x_mean) / (wx + wx_incl))
     return res
 
 
-- 
2.43.0


From ab42a0efc1014a156e0bba56cf95cab38596c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:58:18 +0000
Subject: [PATCH 14/53] fix: explain models that are trained on arrays

The feature groups of a model trained on an array are column positions.
Joining them to a name failed with a TypeError in get_feature_contributions
and get_feature_importances.
---
 cyclic_boosting/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index b21a31f..7ef762c 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -992,7 +992,7 @@ class CyclicBoostingBase(
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
             norm_feature_importances = {
-                "_".join(feature.feature_id.feature_group): normalized_values[i]
+                "_".join(str(column) for column in feature.feature_id.feature_group): normalized_values[i]
                 for i, feature in enumerate(self.feature_importances.keys())
             }
             return norm_feature_importances
@@ -1020,7 +1020,7 @@ class CyclicBoostingBase(
         contribution = {}
         for feature in self.features:
             ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
-            fg = " ".join(feature.feature_group)
+            fg = " ".join(str(column) for column in feature.feature_group)
             contribution[fg + ft] = self.unlink_func(self._pred_feature(X, feature, is_fit=False))
         return contribution
 
-- 
2.43.0


From 4d63771cf3b571c3ed8e3c84b3953d9fe1683623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:26 +0000
Subject: [PATCH 15/53] fix: train CBNBinomC on arrays

The mean prediction column was only accessible in data frames, all other
columns can be given by position as well.
---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 7b7e798..c586eea 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -134,7 +134,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         return loss_nbinom_c(y.astype(np.float64), self.mu, c, self.gamma)
 
     def fit(self, X, y=None):
-        self.mu = X[self.mean_prediction_column].values
+        self.mu = get_X_column(X, self.mean_prediction_column)
         _ = self._fit_predict(X, y)
         del self.mu
         return self
-- 
2.43.0


From 690c738a18139383496bb71f5577530d35bf4600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:26 +0000
Subject: [PATCH 16/53] fix: do not clip the prior prediction column of the
 caller in CBNBinomC

The clipping was done in place and changed the data passed to fit and
predict.
---
 cyclic_boosting/nbinom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index c586eea..1a47781 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -144,7 +144,7 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
             prior_prediction_link = np.repeat(self.neutral_factor_link, X.shape[0])
         else:
             prior_pred = get_X_column(X, self.prior_prediction_column)
-            np.clip(prior_pred, 0, 1, prior_pred)
+            prior_pred = np.clip(prior_pred, 0, 1)
             prior_prediction_link = self.link_func(prior_pred)
             finite = np.isfinite(prior_prediction_link)
             prior_prediction_link[~finite] = self.neutral_factor_link
-- 
2.43.0


From 1b493d31cdc6fa5da886cb259dac75b15b48e8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:59:26 +0000
Subject: [PATCH 17/53] fix: keep bins without rows neutral in CBNBinomC

The likelihoods of a bin without rows are all zero, so the first value of the
search grid was taken. Missing values which do not occur in the training data
got the smallest possible c as a consequence.
---
 cyclic_boosting/nbinom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index 1a47781..fe5c602 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -126,6 +126,8 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
         )
 
         bincounts = np.bincount(binnumbers, minlength=minlength)
+        # no row in the bin: all likelihoods are equal, there is nothing to learn
+        c_link_estimate[bincounts == 0] = self.neutral_factor_link
         bincounts[bincounts < 1] = 1.0
         return c_link_estimate, 1.0 / np.sqrt(bincounts)
 
-- 
2.43.0


From 4b5299f17c836dc7e89e4ba114daae808b683146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:05 +0000
Subject: [PATCH 18/53] fix: keep the continuous quantile of discrete values
 between neighbouring values

Row indices were mixed up with cumulated weights, and the interpolation could
exceed one at the upper end of equal values. For example, the median of
[1, 1, 2, 3] was 3, and weights different from one gave arbitrary values.
---
 cyclic_boosting/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index 8e779d1..b198b89 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -1054,11 +1054,12 @@ def continuous_quantile_from_discrete_pdf(y, quantile, weights):
     quantile_index = weights.sum() * quantile
     quantile_y = sorted_y[cumsum >= quantile_index][0]
 
-    all_quantile_y = np.where(sorted_y == quantile_y)[0]
-    index_low = all_quantile_y[0]
-    index_high = all_quantile_y[-1]
-    if index_high > index_low:
-        quantile_y += (int(quantile_index) - index_low) / (index_high - index_low)
+    # spread values which occur several times by the share of their weight
+    # that is needed to reach the quantile
+    is_quantile_y = (y == quantile_y) & (weights > 0)
+    if np.sum(is_quantile_y) > 1:
+        weight_below = weights[y < quantile_y].sum()
+        quantile_y += (quantile_index - weight_below) / weights[is_quantile_y].sum()
 
     return quantile_y
 
-- 
2.43.0


From 9326058241765a5f4dc67e16571b08439eb88ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:04 +0000
Subject: [PATCH 19/53] fix: forget the feature importances of previous
 trainings

The importances were collected over all calls of fit, so their sum after a
second training was less than one.
---
 cyclic_boosting/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 7ef762c..a21a285 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -978,6 +978,7 @@ class CyclicBoostingBase(
             return [(feature.feature_id, feature.smoother) for feature in self.features]
 
     def set_feature_importances(self) -> None:
+        self.feature_importances = {}
         for feature in self.features:
             feature.prepare_feature()
             feature.set_feature_bin_deviations_from_neutral(self.neutral_factor_link)
-- 
2.43.0


From d2a329c0406f59fb4623fb7e43ee34c2d8d3cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:14 +0000
Subject: [PATCH 20/53] fix: report importances of standard and external
 features separately

A feature group which is used as standard and external feature of
CBExponential was reported once only, so one of the importances was lost. The
names now have the same suffix as in get_feature_contributions.
---
 cyclic_boosting/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index a21a285..919f7c4 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -992,10 +992,11 @@ class CyclicBoostingBase(
             raise ValueError("_fit_main has to be called first to compute the feature importance.")
         else:
             normalized_values = get_normalized_values(self.feature_importances.values())
-            norm_feature_importances = {
-                "_".join(str(column) for column in feature.feature_id.feature_group): normalized_values[i]
-                for i, feature in enumerate(self.feature_importances.keys())
-            }
+            norm_feature_importances = {}
+            for i, feature in enumerate(self.feature_importances.keys()):
+                ft = "" if feature.feature_type is None else "_{}".format(feature.feature_type)
+                fg = "_".join(str(column) for column in feature.feature_group)
+                norm_feature_importances[fg + ft] = normalized_values[i]
             return norm_feature_importances
 
     def get_feature_contributions(self, X: Union[pd.DataFrame, np.ndarray]) -> Dict[str, np.ndarray]:
-- 
2.43.0


From c325cb26fce139c2112ac38f075e8690722cd729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 21/53] fix: ignore infinite values and values without weight
 in the binning

Values with total weight zero were dropped from the cumulative distribution
but kept as bin boundaries, so both did not fit together and the training of
the binner failed or mixed up the bins. Infinite values became bin boundaries
although they are documented to be ignored.
---
 cyclic_boosting/binning/ecdf_transformer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 723d05e..4f68ce5 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -557,15 +557,17 @@ def calculate_cdf_from_weighted_data(z, w):
     if z.shape[0] != w.shape[0]:
         raise ValueError("input vectors must be of same shape")
 
-    n_nan = np.count_nonzero(np.isnan(z))
-    z_unique = np.unique(z[~np.isnan(z)])
+    finite = np.isfinite(z)
+    n_nan = np.count_nonzero(~finite)
+    z, w = z[finite], w[finite]
 
-    wsum = np.nansum(w[~np.isnan(z)])
+    wsum = np.nansum(w)
 
     # Accumulate the weights for the unique values.
     uniques = pd.DataFrame({"z": z, "w": w}).groupby(["z"]).agg({"w": "sum"}).reset_index()
     uniques = uniques.loc[uniques["w"] != 0]
 
+    z_unique = uniques["z"].values
     cdf = np.nancumsum(uniques["w"]) / wsum
 
     return z_unique, cdf, wsum, n_nan
-- 
2.43.0


From 6517b63a615ea4fcc294245413abe95f28eafc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 22/53] fix: leave the input of ECdfTransformer unchanged and
 keep its index

The result was written into the array or data frame of the caller if it had
float values, and the index of data frames was lost.
---
 cyclic_boosting/binning/ecdf_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 4f68ce5..1b6e8ff 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -272,7 +272,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
         if check_frame_empty(X):
             return X
 
-        Xnp = np.asarray(X, dtype=float)
+        Xnp = np.array(X, dtype=float)
         Xt = Xnp
 
         for col, epsilon, bins_and_cdfs in self.bins_and_cdfs_:
@@ -305,7 +305,7 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
                 Xnp[:, j] = np.nan
 
         if isinstance(X, pd.DataFrame):
-            return pd.DataFrame(Xt, columns=X.columns)
+            return pd.DataFrame(Xt, columns=X.columns, index=X.index)
         else:
             return Xt
 
-- 
2.43.0


From aca23f5c3c9b64d3e012265b00204b2f4b7a58bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 23/53] fix: ignore magic missing values when learning the bins

The values -9 and -999 of features with HAS_MAGIC_INT_MISSING are mapped to
the missing bin but occupied a bin of their own.
---
 cyclic_boosting/binning/ecdf_transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index 1b6e8ff..bc866c3 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -223,7 +223,11 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
             if feature_prop is None:
                 continue
 
-            bins_x, cdf_x, _wsum, _n_nan = calculate_cdf_from_weighted_data(x_col.astype(float), weights)
+            x_col = x_col.astype(float)
+            if flags.has_magic_missing_set(feature_prop):
+                x_col[(x_col == -9) | (x_col == -999)] = np.nan
+
+            bins_x, cdf_x, _wsum, _n_nan = calculate_cdf_from_weighted_data(x_col, weights)
 
             if len(bins_x) == 0 or len(cdf_x) == 0:
                 self.bins_and_cdfs_.append((col, self.epsilon, None))
-- 
2.43.0


From 5362cb4ea611abfb2da0ea95e19f2f666a4774d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:12:18 +0000
Subject: [PATCH 24/53] fix: bin arrays of small integer types

The bin numbers were written into a copy of the input array, so the missing
value -1 became 255 for uint8 and bin numbers above 127 overflowed for int8.
---
 cyclic_boosting/binning/bin_number_transformer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/binning/bin_number_transformer.py b/cyclic_boosting/binning/bin_number_transformer.py
index f2bd6e0..32ac957 100644
--- a/cyclic_boosting/binning/bin_number_transformer.py
+++ b/cyclic_boosting/binning/bin_number_transformer.py
@@ -181,10 +181,13 @@ class BinNumberTransformer(ECdfTransformer):
     ) -> Union[pd.DataFrame, np.ndarray]:
         self._check_input_for_transform(X_orig)
 
-        if not self.inplace:
+        if self.inplace:
+            X = X_orig
+        elif isinstance(X_orig, pd.DataFrame):
             X = X_orig.copy()
         else:
-            X = X_orig
+            # the type has to be able to hold all bin numbers
+            X = X_orig.astype(np.result_type(X_orig.dtype, np.int32))
 
         if check_frame_empty(X):
             if isinstance(X, pd.DataFrame):
-- 
2.43.0


From f94cdf31241a564dcf94027181e1557a6023d9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:28 +0000
Subject: [PATCH 25/53] fix: describe the flags for magic missing values and
 directions

The conversion of feature properties to text rejected HAS_MAGIC_INT_MISSING,
INCREASING and DECREASING as unknown flags.
---
 cyclic_boosting/flags.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/flags.py b/cyclic_boosting/flags.py
index 2d123a1..576d9d3 100644
--- a/cyclic_boosting/flags.py
+++ b/cyclic_boosting/flags.py
@@ -47,6 +47,9 @@ _FLAG_LIST = [
     "CORR_TO_WIDTH",
     "IS_LINEAR",
     "IS_SEASONAL",
+    "HAS_MAGIC_INT_MISSING",
+    "INCREASING",
+    "DECREASING",
 ]
 
 
-- 
2.43.0


From 0dcf62b8b3a7236622b21a1a5ac38dfca8bca2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:18:28 +0000
Subject: [PATCH 26/53] fix: keep magic missing values missing in
 ECdfTransformer

The values -9 and -999 of features with HAS_MAGIC_INT_MISSING were mapped to
probabilities.
---
 cyclic_boosting/binning/ecdf_transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/binning/ecdf_transformer.py b/cyclic_boosting/binning/ecdf_transformer.py
index bc866c3..148bee5 100644
--- a/cyclic_boosting/binning/ecdf_transformer.py
+++ b/cyclic_boosting/binning/ecdf_transformer.py
@@ -286,6 +286,9 @@ class ECdfTransformer(sklearnb.BaseEstimator, sklearnb.TransformerMixin):
             if feature_property is None:
                 continue
 
+            if flags.has_magic_missing_set(feature_property):
+                Xnp[(Xnp[:, j] == -9) | (Xnp[:, j] == -999), j] = np.nan
+
             if bins_and_cdfs is not None:
                 if flags.is_continuous_set(feature_property):
                     le_interp_multi(
-- 
2.43.0


From e17f1d8baa0ecb6467f9c89155ab966f703d7fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:21:52 +0000
Subject: [PATCH 27/53] fix: number rows without any valid bins as missing

If no row had valid bins in all dimensions, all rows got the number of the
first bin instead of the number of the missing bin.
---
 cyclic_boosting/utils.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cyclic_boosting/utils.py b/cyclic_boosting/utils.py
index b198b89..bb619bc 100644
--- a/cyclic_boosting/utils.py
+++ b/cyclic_boosting/utils.py
@@ -240,11 +240,7 @@ def multidim_binnos_to_lexicographic_binnos(binnos, n_bins=None, binsteps=None):
     is_valid = np.isfinite(binnos).all(axis=1)
     is_valid[is_valid] &= ((binnos[is_valid] >= 0) & (binnos[is_valid] < n_bins[None, :])).all(axis=1)
 
-    if not np.any(is_valid):
-        result = np.repeat(0, len(binnos))
-    else:
-        result = np.repeat(np.product(n_bins), len(binnos))
-
+    result = np.repeat(np.product(n_bins), len(binnos))
     result[is_valid] = np.dot(np.floor(binnos[is_valid]), binsteps[1:])
 
     if n_bins.prod() >= np.iinfo(np.int32).max:
-- 
2.43.0


From ee3ee46ae629ed9bc431b3f936ed2ef1e8aa9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:54 +0000
Subject: [PATCH 28/53] fix: support symmetric triplets in the bounded and
 semi-bounded J-QPD

A triplet that is symmetric in the internal space gave a shape parameter of
zero and thereby NaN quantiles. The shape is now bounded away from zero.
---
 cyclic_boosting/quantile_matching.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 5c00597..93ad9e0 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -74,8 +74,11 @@ class J_QPD_S:
             / self.c
             * np.sinh(
                 np.arccosh(
-                    (self.H - self.L)
-                    / (2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B)))
+                    np.maximum(
+                        (self.H - self.L)
+                        / (2 * np.where((self.B - self.L) < (self.H - self.B), (self.B - self.L), (self.H - self.B))),
+                        1 + 1e-10,
+                    )
                 )
             )
         )
@@ -233,8 +236,11 @@ class J_QPD_B:
             1.0
             / self.c
             * np.arccosh(
-                (self.H - self.L)
-                / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B))
+                np.maximum(
+                    (self.H - self.L)
+                    / (2 * np.where((self.B - self.L) < (self.H - self.B), self.B - self.L, self.H - self.B)),
+                    1 + 1e-10,
+                )
             )
         )
 
-- 
2.43.0


From a13cb848c09f39c8a2fc0adaa227e902a992e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:54 +0000
Subject: [PATCH 29/53] fix: reproduce symmetric triplets in the extended J-QPD

The distribution of an exactly symmetric triplet missed its lower and upper
quantile, and a nearly symmetric one could give NaN.
---
 cyclic_boosting/quantile_matching.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 93ad9e0..dc78195 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -369,17 +369,15 @@ def unconstrained_calc(L: float, B: float, H: float) -> Tuple[float, float, floa
 
     if gamma == 0:
         xi = B
-        kappa = H - B
-        delta = 1
+        theta = 0.5
+    elif gamma < 0:
+        xi = L
+        theta = (B - L) / (H - L)
     else:
-        if gamma < 0:
-            xi = L
-            theta = (B - L) / (H - L)
-        else:
-            xi = H
-            theta = (H - B) / (H - L)
-        delta = 1.0 / arccosh(1 / (2.0 * theta))
-        kappa = (H - L) / sinh(2.0 / delta)
+        xi = H
+        theta = (H - B) / (H - L)
+    delta = 1.0 / arccosh(np.maximum(1 / (2.0 * theta), 1 + 1e-10))
+    kappa = (H - L) / sinh(2.0 / delta)
 
     return gamma, xi, kappa, delta
 
-- 
2.43.0


From 30de0bfc9e3932945396d2077c716ed1549db282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:54 +0000
Subject: [PATCH 30/53] fix: train the lower quantile of the QPD chain for
 negative medians

Scaling the target by the median swapped the samples above and below the
median when it is negative, and failed when it is zero.
---
 cyclic_boosting/quantile_matching.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index dc78195..a823ff9 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -790,10 +790,8 @@ class QPD_RegressorChain(BaseEstimator):
             pred_median = back_transform_in_bounds(z, self.l, self.u)
 
         # lower quantile model
-        y_trans = y / pred_median
-        mask = y_trans < 1
-        y_trans = y_trans[mask]
-        y_trans = transform_from_bounds(y_trans, self.l / pred_median[mask], 1)
+        mask = y < pred_median
+        y_trans = transform_from_bounds(y[mask], self.l, pred_median[mask])
         self.est_lowq.fit(X[mask], y_trans)
         z = self.est_lowq.predict(X)
         pred_lowq = back_transform_in_bounds(z, self.l, pred_median)
-- 
2.43.0


From 74434371d915cc07e2feb674e0ffad24c5974746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:54 +0000
Subject: [PATCH 31/53] fix: select the upper bounds of the training samples in
 the bounded QPD chain

Fitting in bound mode failed because the bounds covered all samples, but the
target only the ones above the median.
---
 cyclic_boosting/quantile_matching.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index a823ff9..3c996bd 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -803,7 +803,7 @@ class QPD_RegressorChain(BaseEstimator):
         if self.bound == "S":
             y_trans = transform_from_semibound_lower(y_trans, 0)
         elif self.bound == "B":
-            y_trans = transform_from_bounds(y_trans, 0, (self.u - pred_median) / (pred_median - pred_lowq))
+            y_trans = transform_from_bounds(y_trans, 0, ((self.u - pred_median) / (pred_median - pred_lowq))[mask])
         self.est_highq.fit(X[mask], y_trans)
 
         return self
-- 
2.43.0


From b9142717284562e4029bcb018f8a45f002c3f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:36:54 +0000
Subject: [PATCH 32/53] fix: keep values at the upper bound finite in the logit
 transformation

---
 cyclic_boosting/quantile_matching.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 3c996bd..3ef6ec0 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -621,6 +621,7 @@ def transform_from_bounds(x: np.ndarray, l: float, u: float) -> np.ndarray:
     # transfer to unconstrained internal space by logit
     z = z / (1 - z)
     z = np.where(z == 0, 1e-12, z)
+    z = np.where(np.isposinf(z), 1e12, z)
     return np.log(z)
 
 
-- 
2.43.0


From 160ee98b306572e20a61905e93d3a672cfb63f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:24 +0000
Subject: [PATCH 33/53] fix: start the negative binomial quantile fit at the
 scale of the data

With the fixed start values the fit did not move for means above about 20
and silently returned a distribution with mean 2.2.
---
 cyclic_boosting/quantile_matching.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index 3ef6ec0..edd7df5 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -953,7 +953,8 @@ def quantile_fit_nbinom(quantiles: np.ndarray, quantile_values: np.ndarray, mode
     callable
         fitted negative binomial function (see mode)
     """
-    mu, var = curve_fit(_nbinom_cdf_mu_var, quantile_values, quantiles, p0=[2.2, 2.4])[0]
+    mu_start = max(np.median(quantile_values), 2.2)
+    mu, var = curve_fit(_nbinom_cdf_mu_var, quantile_values, quantiles, p0=[mu_start, 2.4 / 2.2 * mu_start])[0]
     n = mu * mu / (var - mu)
     p = mu / var
     if mode == "ppf":
-- 
2.43.0


From f2995e13726709660a8d2db607671344fd2db67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:42 +0000
Subject: [PATCH 34/53] fix: start the Gaussian quantile fit at the scale of
 the data

With start values of one the fit ended at a wrong distribution when the mean
is large compared to the standard deviation, for example 121 and 1.
---
 cyclic_boosting/quantile_matching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/quantile_matching.py b/cyclic_boosting/quantile_matching.py
index edd7df5..0c1c6de 100644
--- a/cyclic_boosting/quantile_matching.py
+++ b/cyclic_boosting/quantile_matching.py
@@ -855,7 +855,9 @@ def quantile_fit_gaussian(quantiles: np.ndarray, quantile_values: np.ndarray, mo
     def f(x, mu, sigma):
         return norm(loc=mu, scale=sigma).ppf(x)
 
-    mu, sigma = curve_fit(f, quantiles, quantile_values)[0]
+    mu_start = np.median(quantile_values)
+    sigma_start = np.std(quantile_values) or 1.0
+    mu, sigma = curve_fit(f, quantiles, quantile_values, p0=[mu_start, sigma_start])[0]
     if mode == "ppf":
         return norm(mu, sigma).ppf
     elif mode == "dist":
-- 
2.43.0


From 1a70c33ff43f55f434c39d6a5cf47bd178b27509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:04:57 +0000
Subject: [PATCH 35/53] fix: keep the orthogonal polynomial smoother from
 clipping the caller's array

The prediction clips positions outside the fitted range.  For a contiguous
single-column array this wrote into the array that was passed in.
---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index a050b7d..b03960b 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -257,7 +257,7 @@ class OrthogonalPolynomialSmoother(AbstractBinSmoother):
         assert X.ndim == 2
         if not hasattr(self, "pp_"):
             raise ValueError("The {} has not been fitted!".format(self.__class__.__name__))
-        x = np.ascontiguousarray(X[:, 0], dtype=np.float64)
+        x = np.array(X[:, 0], dtype=np.float64)
         x[x < self.minimal_x] = self.minimal_x
         x[x > self.maximal_x] = self.maximal_x
         y = cy_apply_orthogonal_poly_fit_equidistant(x, self.pp_, self.n_degrees_)
-- 
2.43.0


From 76cff22464b5a3797a91071fe73bbb90acbe8d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:08:13 +0000
Subject: [PATCH 36/53] fix: use the representation of missing values given to
 the section smoother

The constructor ignored its nan_representation argument and always used NaN.
---
 cyclic_boosting/smoothing/meta_smoother.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/meta_smoother.py b/cyclic_boosting/smoothing/meta_smoother.py
index b5543f9..a81c36a 100644
--- a/cyclic_boosting/smoothing/meta_smoother.py
+++ b/cyclic_boosting/smoothing/meta_smoother.py
@@ -263,7 +263,7 @@ class SectionSmoother(AbstractBinSmoother):
         self.split_point = split_point
         self.smoother_lower = smoother_lower
         self.smoother_upper = smoother_upper
-        self.nan_representation = np.nan
+        self.nan_representation = nan_representation
         self.epsilon = epsilon
         self._reset_smoother_status()
 
-- 
2.43.0


From 38f3b0550837ac97dcc7480dc95cf72459b9694c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:40:55 +0000
Subject: [PATCH 37/53] fix: pass the variance parameters to the price model in
 its pipeline

---
 cyclic_boosting/pipelines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cyclic_boosting/pipelines.py b/cyclic_boosting/pipelines.py
index f7689de..c27fe7f 100644
--- a/cyclic_boosting/pipelines.py
+++ b/cyclic_boosting/pipelines.py
@@ -101,6 +101,8 @@ def pipeline_CB(
             learn_rate=learn_rate,
             var_prior_exponent=var_prior_exponent,
             prior_exponent_colname=prior_exponent_colname,
+            a=a,
+            c=c,
         )
     elif estimator == CBNBinomC:
         estimatorCB = estimator(
-- 
2.43.0


From 8035d3ae52e94dabaf94c81b2a568993fc5ea8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:01 +0000
Subject: [PATCH 38/53] fix: accept the arguments passed to observers in the
 observer base class

---
 cyclic_boosting/observers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 8328b7b..5490123 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -16,7 +16,7 @@ class BaseObserver(object):
     order to make predictions.
     """
 
-    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state):
+    def observe_iterations(self, iteration, X, y, prediction, weights, estimator_state, delta=None, quantile=None):
         """
         Called after each iteration of the algorithm.
 
@@ -42,6 +42,12 @@ class BaseObserver(object):
             :meth:`cyclic_boosting.base.CyclicBoostingBase.get_state` for
             information on what will be passed here
 
+        delta : float
+            mean change of the factors of all features in the last iteration
+
+        quantile : float
+            quantile to be estimated, only passed by quantile regressors
+
         """
 
     def observe_feature_iterations(self, iteration, feature_i, X, y, prediction, weights, estimator_state):
-- 
2.43.0


From 28ea61cbc1cf0fe829459d885181ff2fc0a644af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:48:32 +0000
Subject: [PATCH 39/53] fix: keep all empty bins in the plot data of quantile
 regressors

---
 cyclic_boosting/generic_loss.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index a57eb6d..d2aaffc 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -270,7 +270,8 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             feature.bind_data(X, weights)
 
             sum_w, _, sum_pw = (
-                np.bincount(feature.lex_binned_data, weights=w) for w in [weights, weights * y, weights * prediction]
+                np.bincount(feature.lex_binned_data, weights=w, minlength=feature.n_bins)
+                for w in [weights, weights * y, weights * prediction]
             )
 
             df = pd.DataFrame({"y": y, "weights": weights, "binnumbers": feature.lex_binned_data})
@@ -288,19 +289,14 @@ class CBQuantileRegressor(CBGenericLoss, sklearn.base.RegressorMixin):
             mean_prediction_binned = np.where(np.isfinite(mean_prediction_binned), mean_prediction_binned, 1.0)
 
             # keep potential empty bins in multi-dimensional features
-            all_bins = range(max(feature.lex_binned_data) + 1)
-            empty_bins = list(set(np.unique(feature.lex_binned_data)) ^ set(all_bins))
+            all_bins = range(feature.n_bins)
+            empty_bins = sorted(set(np.unique(feature.lex_binned_data)) ^ set(all_bins))
             for i in empty_bins:
                 mean_target_binned = np.insert(mean_target_binned, i, 1.0)
 
             mean_y_finite = continuous_quantile_from_discrete_pdf(y, self.quantile, weights)
             mean_prediction_finite = np.sum(sum_pw) / np.sum(sum_w)
 
-            if len(mean_target_binned) + 1 == feature.n_bins:
-                mean_target_binned = np.append(mean_target_binned, 1.0)
-            if len(mean_prediction_binned) + 1 == feature.n_bins:
-                mean_prediction_binned = np.append(mean_prediction_binned, 1.0)
-
             if isinstance(self, IdentityLinkMixin):
                 feature.mean_dev = mean_prediction_binned - mean_target_binned
                 feature.y = mean_target_binned - mean_y_finite
-- 
2.43.0


From cd7c1139cae013c3b11ab2a2c3cac0cca68118cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:33 +0000
Subject: [PATCH 40/53] fix: leave out untrained features in the state passed
 to observers

---
 cyclic_boosting/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 919f7c4..151245c 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -551,10 +551,13 @@ class CyclicBoostingBase(
         }
         if (
             self.hierarchical_feature_groups is not None
-            and self.iteration_ < self.training_iterations_hierarchical_features
+            and self.iteration_ <= self.training_iterations_hierarchical_features
         ):
+            # leave out features whose training has not started yet
             est_state["features"] = [
-                feature for feature in self.features if feature.feature_group in self.hierarchical_features
+                feature
+                for feature in self.features
+                if feature.feature_group in self.hierarchical_features or feature.is_fitted
             ]
         return est_state
 
-- 
2.43.0


From 8b2597b1ce1ee11f6547a4800367e1b4b658cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:33 +0000
Subject: [PATCH 41/53] fix: leave out bins without weight in the in-sample
 histogram

---
 cyclic_boosting/observers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/observers.py b/cyclic_boosting/observers.py
index 5490123..7976a32 100644
--- a/cyclic_boosting/observers.py
+++ b/cyclic_boosting/observers.py
@@ -228,6 +228,11 @@ def calc_in_sample_histograms(y, pred, weights, quantile=None):
     if quantile is not None:
         means = utils.calc_weighted_quantile(bin_numbers, y, weights, quantile)
         errors = None
+    # bins without any weight have no mean
+    valid = ~np.isnan(means)
+    means, counts = means[valid], counts[valid]
+    if errors is not None:
+        errors = [error[valid] for error in errors]
     bin_centers = bin_centers[np.where(~np.isnan(means.reindex(np.arange(1, nbins + 1))))]
     # quantiles do not work for classification mode
     if np.isin(y, [0, 1]).all():
-- 
2.43.0


From a7b9f6deeab095806091904ce4324e2a95e0f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:59:33 +0000
Subject: [PATCH 42/53] fix: keep the bin weights of the observer when plotting
 two-dimensional features

---
 cyclic_boosting/plots/_2dplots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/plots/_2dplots.py b/cyclic_boosting/plots/_2dplots.py
index 9b6a9b4..9629df8 100644
--- a/cyclic_boosting/plots/_2dplots.py
+++ b/cyclic_boosting/plots/_2dplots.py
@@ -166,7 +166,7 @@ def plot_factor_2d(n_bins_finite, feature, grid_item=None):
     )
 
     def plot_marginal(axis):
-        w1 = np.reshape(weights[:-1], n_bins_finite)
+        w1 = np.reshape(weights[:-1], n_bins_finite).copy()
         w1[w1 == 0.0] = 1.0
         w = np.sum(w1, axis=axis)
 
-- 
2.43.0


From 922388738c5b3c4d799b806abb819c4628d4e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:30:19 +0000
Subject: [PATCH 43/53] fix: keep bins without weight neutral when minimising
 custom losses

---
 cyclic_boosting/generic_loss.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index d2aaffc..90bfd0e 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -95,6 +95,9 @@ class CBGenericLoss(CyclicBoostingBase):
             parameters = np.where(parameters < epsilon, epsilon, parameters)
             parameters = np.log(parameters)
 
+        # nothing can be learned in bins without any weight
+        parameters = np.where(feature.bin_weightsums > 0, parameters, self.neutral_factor_link)
+
         return parameters, uncertainties
 
     def optimization(self, y: np.ndarray, yhat_others: np.ndarray, weights: np.ndarray) -> Tuple[float, float]:
-- 
2.43.0


From eebf81f673452eca749480ce1b4774b84ef39971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:48:54 +0000
Subject: [PATCH 44/53] fix: reject data and target of different lengths

The check for empty data compared the wrong things because of operator
precedence, and a target with a single value was spread over all rows.
---
 cyclic_boosting/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 151245c..ba21b74 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -957,9 +957,11 @@ class CyclicBoostingBase(
             raise ValueError("fit must be called first.")
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
-        """Check that input arrays are not empty"""
-        if len(X) == 0 | len(y) == 0:
+        """Check that input arrays are not empty and have the same length"""
+        if len(X) == 0 or len(y) == 0:
             raise ValueError("Estimator should be applied on non-empty data")
+        if len(X) != len(y):
+            raise ValueError("The data has {} rows, but the target y {}".format(len(X), len(y)))
 
     def _check_y(self, y: np.ndarray) -> None:
         """Check that y has the correct values. Has to be
-- 
2.43.0


From fa5c79b37608c708dc6311a16b8f16ffa03772cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:48:54 +0000
Subject: [PATCH 45/53] fix: reject infinite targets

Infinite targets of the multiplicative models and non-finite targets of the
background subtraction regressor were accepted and led to useless models.
---
 cyclic_boosting/GBSregression.py | 4 +++-
 cyclic_boosting/generic_loss.py  | 5 +++--
 cyclic_boosting/nbinom.py        | 5 +++--
 cyclic_boosting/regression.py    | 5 +++--
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/cyclic_boosting/GBSregression.py b/cyclic_boosting/GBSregression.py
index 2f3ac96..84f1e61 100644
--- a/cyclic_boosting/GBSregression.py
+++ b/cyclic_boosting/GBSregression.py
@@ -96,7 +96,9 @@ class CBGBSRegressor(RegressorMixin, CyclicBoostingBase, IdentityLinkMixin):
         return summand, np.sqrt(variance_summand)
 
     def _check_y(self, y: np.ndarray):
-        pass
+        """Check that y has only finite values."""
+        if not np.isfinite(y).all():
+            raise ValueError("The target y must be real value and not NAN.")
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         if self.weights is None:
diff --git a/cyclic_boosting/generic_loss.py b/cyclic_boosting/generic_loss.py
index 90bfd0e..64a1a20 100644
--- a/cyclic_boosting/generic_loss.py
+++ b/cyclic_boosting/generic_loss.py
@@ -589,9 +589,10 @@ def uncertainty_beta(y: np.ndarray, weights: np.ndarray, link_func) -> float:
 
 def check_y_multiplicative(y: np.ndarray) -> None:
     """Check that y has no negative values."""
-    if not (y >= 0.0).all():
+    if not ((y >= 0.0) & np.isfinite(y)).all():
         raise ValueError(
-            "The target y must be positive semi-definite " "and not NAN. y[~(y>=0)] = {0}".format(y[~(y >= 0)])
+            "The target y must be positive semi-definite, finite "
+            "and not NAN. y = {0}".format(y[~((y >= 0) & np.isfinite(y))])
         )
 
 
diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index fe5c602..c4128f3 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -100,9 +100,10 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
 
     def _check_y(self, y):
         """Check that y has no negative values."""
-        if not (y >= 0.0).all():
+        if not ((y >= 0.0) & np.isfinite(y)).all():
             raise ValueError(
-                "The target y must be positive semi-definite " "and not NAN. y[~(y>=0)] = {0}".format(y[~(y >= 0)])
+                "The target y must be positive semi-definite, finite "
+                "and not NAN. y = {0}".format(y[~((y >= 0) & np.isfinite(y))])
             )
 
     def precalc_parameters(self, feature, y, pred):
diff --git a/cyclic_boosting/regression.py b/cyclic_boosting/regression.py
index 5493553..26032da 100644
--- a/cyclic_boosting/regression.py
+++ b/cyclic_boosting/regression.py
@@ -68,9 +68,10 @@ class CBBaseRegressor(CyclicBoostingBase, sklearn.base.RegressorMixin, LogLinkMi
 
     def _check_y(self, y: np.ndarray) -> None:
         """Check that y has no negative values."""
-        if not (y >= 0.0).all():
+        if not ((y >= 0.0) & np.isfinite(y)).all():
             raise ValueError(
-                "The target y must be positive semi-definite " "and not NAN. y[~(y>=0)] = {0}".format(y[~(y >= 0)])
+                "The target y must be positive semi-definite, finite "
+                "and not NAN. y = {0}".format(y[~((y >= 0) & np.isfinite(y))])
             )
 
     @abc.abstractmethod
-- 
2.43.0


From a68b1f1de38e45401b7de190abe84aba7ae94602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:28:04 +0000
Subject: [PATCH 46/53] fix: choose the default feature groups anew in every
 training

---
 cyclic_boosting/base.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index ba21b74..2755f91 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -328,7 +328,7 @@ class CyclicBoostingBase(
             self.learn_rate = learn_rate
         if hierarchical_feature_groups is not None:
             self.learn_rate = learning_rate.constant_learn_rate_one
-        self._init_features()
+        self._init_features(self.feature_groups)
 
     def loss(self, prediction: np.ndarray, y: np.ndarray, weights: np.ndarray) -> np.ndarray:
         if not len(y) > 0:
@@ -378,9 +378,9 @@ class CyclicBoostingBase(
            are we called in fit() ?
         """
 
-    def _init_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> None:
+    def _get_default_feature_groups(self, X: Union[pd.DataFrame, np.ndarray]) -> List:
         """
-        Initializes the ``feature_groups`` to be a list of all
+        Returns the default ``feature_groups``, a list of all
         columns available in ``X`` except the ``prior_prediction_column`` and
         the ``weight_column``.
         """
@@ -390,7 +390,7 @@ class CyclicBoostingBase(
         if self.weight_column is not None:
             exclude_columns.append(self.weight_column)
 
-        self.feature_groups = get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
+        return get_feature_column_names_or_indices(X, exclude_columns=exclude_columns)
 
     def _init_global_scale(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
         """
@@ -440,12 +440,12 @@ class CyclicBoostingBase(
         if self.weights is None:
             raise RuntimeError("The weights have to be initialized.")
 
-    def _init_features(self) -> None:
+    def _init_features(self, feature_groups: Optional[List]) -> None:
         """
         Initializes the ``features`` and binds the data belonging to a feature
         to it.
         """
-        self.features = create_features(self.feature_groups, self.feature_properties, self.smoother_choice)
+        self.features = create_features(feature_groups, self.feature_properties, self.smoother_choice)
 
     def _get_prior_predictions(self, X: Union[pd.DataFrame, np.ndarray]) -> np.ndarray:
         if self.prior_prediction_column is None:
@@ -715,11 +715,12 @@ class CyclicBoostingBase(
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-        if self.feature_groups is None:
-            self._init_default_feature_groups(X)
+        feature_groups = self.feature_groups
+        if feature_groups is None:
+            feature_groups = self._get_default_feature_groups(X)
 
         self._check_weights()
-        self._init_features()
+        self._init_features(feature_groups)
         self._init_global_scale(X, y)
 
     def _fit_main(self, X: np.ndarray, y: np.ndarray, pred: CBLinkPredictionsFactors) -> np.ndarray:
-- 
2.43.0


From 89fed14b81ea3251f7db5ce513dfd7bb819a8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:30:22 +0000
Subject: [PATCH 47/53] fix: derive defaults and hierarchical features when
 training

---
 cyclic_boosting/base.py | 48 +++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 2755f91..4dc242b 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -282,23 +282,13 @@ class CyclicBoostingBase(
         learn_rate: Optional[float] = None,
         aggregate: Optional[bool] = True,
     ):
-        if smoother_choice is None:
-            self.smoother_choice = common_smoothers.SmootherChoiceWeightedMean()
-        else:
-            self.smoother_choice = smoother_choice
-            if not isinstance(smoother_choice, common_smoothers.SmootherChoice):
-                raise ValueError("smoother_choice needs to be of type SmootherChoice")
+        self.smoother_choice = smoother_choice
 
         self.feature_groups = feature_groups
         self.hierarchical_feature_groups = hierarchical_feature_groups
         self.feature_properties = feature_properties
 
         self.features = None
-        self.hierarchical_features = []
-        if self.hierarchical_feature_groups is not None:
-            for fg in self.hierarchical_feature_groups:
-                hierarchical_feature = create_feature_id(fg)
-                self.hierarchical_features.append(hierarchical_feature.feature_group)
         self.training_iterations_hierarchical_features = training_iterations_hierarchical_features
         self.feature_importances = {}
         self.aggregate = aggregate
@@ -314,22 +304,39 @@ class CyclicBoostingBase(
         self.minimal_factor_change = minimal_factor_change
         self.maximal_iterations = maximal_iterations
         self.observers = observers
-        if self.observers is None:
-            self.observers = []
 
         self.iteration_ = None
         self.insample_loss_ = None
         self.stop_criteria_ = None
         self.neutral_factor_link = 0.0
         self.output_column = output_column
-        if learn_rate is None:
-            self.learn_rate = learning_rate.half_linear_learn_rate
-        else:
-            self.learn_rate = learn_rate
-        if hierarchical_feature_groups is not None:
-            self.learn_rate = learning_rate.constant_learn_rate_one
+        self.learn_rate = learn_rate
+        self._init_settings()
         self._init_features(self.feature_groups)
 
+    def _init_settings(self) -> None:
+        """
+        Replaces settings that are not given by their defaults and derives the
+        hierarchical features. Settings may be changed between construction
+        and training.
+        """
+        if self.smoother_choice is None:
+            self.smoother_choice = common_smoothers.SmootherChoiceWeightedMean()
+        elif not isinstance(self.smoother_choice, common_smoothers.SmootherChoice):
+            raise ValueError("smoother_choice needs to be of type SmootherChoice")
+
+        if self.observers is None:
+            self.observers = []
+
+        if self.learn_rate is None:
+            self.learn_rate = learning_rate.half_linear_learn_rate
+
+        self.hierarchical_features = []
+        if self.hierarchical_feature_groups is not None:
+            for fg in self.hierarchical_feature_groups:
+                hierarchical_feature = create_feature_id(fg)
+                self.hierarchical_features.append(hierarchical_feature.feature_group)
+
     def loss(self, prediction: np.ndarray, y: np.ndarray, weights: np.ndarray) -> np.ndarray:
         if not len(y) > 0:
             raise ValueError("Loss cannot be computed on empty data")
@@ -346,6 +353,8 @@ class CyclicBoostingBase(
         return self.unlink_func(self.global_scale_link_)
 
     def learning_rate(self, feature: Feature) -> float:
+        if self.hierarchical_feature_groups is not None:
+            return learning_rate.constant_learn_rate_one(self.iteration_ + 1, self.maximal_iterations, feature)
         lr = self.learn_rate(self.iteration_ + 1, self.maximal_iterations, feature)
         return lr
 
@@ -712,6 +721,7 @@ class CyclicBoostingBase(
     def _init_fit(self, X: pd.DataFrame, y: np.ndarray) -> None:
         self._check_len_data(X, y)
         self._check_y(y)
+        self._init_settings()
         self._init_weight_column(X)
         self._init_external_column(X, True)
 
-- 
2.43.0


From 5bdb6be0c262a99e2197b883e427b9f33bc617f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:16 +0000
Subject: [PATCH 48/53] fix: combine the feature groups of the price model when
 training

---
 cyclic_boosting/price.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cyclic_boosting/price.py b/cyclic_boosting/price.py
index 56f3ea0..4374367 100644
--- a/cyclic_boosting/price.py
+++ b/cyclic_boosting/price.py
@@ -266,6 +266,12 @@ class CBExponential(CBNBinomRegressor):
         self.epsilon_jacobian = 0.01
         self.starting_bound_bisect = 2
 
+    def _init_settings(self):
+        CBNBinomRegressor._init_settings(self)
+        self.feature_groups = combine_lists_of_feature_groups(
+            self.standard_feature_groups, self.external_feature_groups
+        )
+
     def required_columns(self):
         required_columns = CBNBinomRegressor.required_columns(self)
         required_columns.add(self.external_colname)
-- 
2.43.0


From ec2e56bd86e1504f11a09e2ae91fe856949d75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:50:56 +0000
Subject: [PATCH 49/53] fix: allow subclasses of the group-by smoother choice

---
 cyclic_boosting/common_smoothers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/common_smoothers.py b/cyclic_boosting/common_smoothers.py
index 400ae30..5023e12 100644
--- a/cyclic_boosting/common_smoothers.py
+++ b/cyclic_boosting/common_smoothers.py
@@ -320,7 +320,7 @@ class SmootherChoiceGroupBy(SmootherChoice):
         # only the properties of the innermost feature should
         # determine the regression type of the groupby smoother:
         if not isinstance(smoother, smoothing.multidim.GroupBySmootherCB):
-            return super(self.__class__, self).wrap_smoother(
+            return super(SmootherChoiceGroupBy, self).wrap_smoother(
                 smoother, feature_group, feature_property[-1], feature_type
             )
         else:
-- 
2.43.0


From 4996c6ae6aa014ca94e906ffe02442dc474f88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:51:26 +0000
Subject: [PATCH 50/53] fix: report the mean prediction column as required

---
 cyclic_boosting/nbinom.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cyclic_boosting/nbinom.py b/cyclic_boosting/nbinom.py
index c4128f3..d1e7093 100644
--- a/cyclic_boosting/nbinom.py
+++ b/cyclic_boosting/nbinom.py
@@ -106,6 +106,11 @@ class CBNBinomC(CyclicBoostingBase, sklearn.base.RegressorMixin, LogitLinkMixin)
                 "and not NAN. y = {0}".format(y[~((y >= 0) & np.isfinite(y))])
             )
 
+    def required_columns(self):
+        required_columns = CyclicBoostingBase.required_columns(self)
+        required_columns.add(self.mean_prediction_column)
+        return required_columns
+
     def precalc_parameters(self, feature, y, pred):
         return None
 
-- 
2.43.0


From 1cd743a75dcb75c3b6f8f5578b6a04409d28cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:36 +0000
Subject: [PATCH 51/53] fix: recognise estimators that have not been trained

---
 cyclic_boosting/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/base.py b/cyclic_boosting/base.py
index 4dc242b..8ee7953 100644
--- a/cyclic_boosting/base.py
+++ b/cyclic_boosting/base.py
@@ -964,7 +964,7 @@ class CyclicBoostingBase(
 
     def _check_fitted(self) -> None:
         """Check if fit was called"""
-        if self.features is None:
+        if self.features is None or self.global_scale_link_ is None:
             raise ValueError("fit must be called first.")
 
     def _check_len_data(self, X: Union[pd.DataFrame, np.ndarray], y: np.ndarray) -> None:
-- 
2.43.0


From e5432c1f53ce95e141e909a861b207e58fcaad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:08:10 +0000
Subject: [PATCH 52/53] fix: use the fallback of the seasonal smoother when its
 fit does not converge

---
 cyclic_boosting/smoothing/onedim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cyclic_boosting/smoothing/onedim.py b/cyclic_boosting/smoothing/onedim.py
index b03960b..0eb1d79 100644
--- a/cyclic_boosting/smoothing/onedim.py
+++ b/cyclic_boosting/smoothing/onedim.py
@@ -379,7 +379,7 @@ class SeasonalSmoother(AbstractBinSmoother):
             self.par_, _ = scipy.optimize.curve_fit(self.fit_function, xdata=xdata, ydata=y, sigma=X_for_smoother[:, 2])
             if self.offset_tozero:
                 self.par_[0] = 0.0
-        except TypeError:
+        except (TypeError, RuntimeError):
             warnings.warn("Seasonal Smoother did not converge. Fallback value is used")
             self.converged = False
         else:
-- 
2.43.0


From 9b9f7cdf56c38dbb10299c9607fad4824e32718e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:24:15 +0000
Subject: [PATCH 53/53] fix: keep the uncertainties of factors positive for
 very large counts

---
 cyclic_boosting/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cyclic_boosting/regression.py b/cyclic_boosting/regression.py
index 26032da..62997ba 100644
--- a/cyclic_boosting/regression.py
+++ b/cyclic_boosting/regression.py
@@ -47,7 +47,8 @@ def _calc_factors_and_uncertainties(alpha: np.ndarray, beta: np.ndarray, link_fu
     # factor_uncertainties:
     # The variance used here was calculated by matching the first two moments
     # of the Gamma posterior with a log-normal distribution.
-    uncertainties = np.sqrt(link_func(1 + alpha_posterior) - link_func(alpha_posterior))
+    # log1p keeps them positive for very large alpha_posterior
+    uncertainties = np.sqrt(np.log1p(1.0 / alpha_posterior))
 
     return factors, uncertainties
 
-- 
2.43.0

