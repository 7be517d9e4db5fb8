From 396047e5244384bcd25d8c3d0369261770648737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:49 +0000
Subject: [PATCH 01/34] fix: purge the end of the training set in WalkForward
 with a train offset

---
 src/skfolio/model_selection/_walk_forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index a8993f1..9d35748 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -428,13 +428,13 @@ def _split_from_period_with_train_offset(
                 return
             test_indices = np.arange(idx[i], n_samples)
         else:
-            test_indices = np.arange(idx[i], idx[i + test_size] - purged_size)
+            test_indices = np.arange(idx[i], idx[i + test_size])
 
         if expend_train:
             train_start = 0
         else:
             train_start = train_idx[i]
-        train_indices = np.arange(train_start, idx[i])
+        train_indices = np.arange(train_start, idx[i] - purged_size)
         yield train_indices, test_indices
 
         i += test_size
-- 
2.43.0


From 74e36d7841d6ce9e0ee94c0784635f6b6f678736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:49 +0000
Subject: [PATCH 02/34] fix: ignore WalkForward periods that match no
 observation

---
 src/skfolio/model_selection/_walk_forward.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 9d35748..4d7f47e 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -364,6 +364,8 @@ def _split_from_period_without_train_offset(
         date_range += freq_offset
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
+    # Periods falling outside the observations have no matching index (-1)
+    idx = idx[idx > -1]
     n = len(idx)
     i = 0
     while True:
@@ -412,6 +414,9 @@ def _split_from_period_with_train_offset(
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     train_idx = ts_index.get_indexer(date_range - train_size, method="ffill")
+    # Periods falling outside the observations have no matching index (-1)
+    train_idx = train_idx[idx > -1]
+    idx = idx[idx > -1]
 
     n = len(idx)
 
-- 
2.43.0


From cd90d4e29fcea8041764c1bfe3397ee6cad36fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:49 +0000
Subject: [PATCH 03/34] fix: count WalkForward splits by period when freq is
 set

---
 src/skfolio/model_selection/_walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 4d7f47e..d7608ae 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -294,6 +294,8 @@ class WalkForward(sks.BaseCrossValidator):
         if X is None:
             raise ValueError("The 'X' parameter should not be None.")
         X, y = sku.indexable(X, y)
+        if self.freq is not None:
+            return sum(1 for _ in self.split(X, y, groups))
         n_samples = X.shape[0]
         n = n_samples - self.train_size - self.purged_size
 
-- 
2.43.0


From 63435fd606b6c4f1e7885f20341a58059b7bedd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:57 +0000
Subject: [PATCH 04/34] fix: assign every trailing observation to the last fold
 in CombinatorialPurgedCV

---
 src/skfolio/model_selection/_combinatorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/model_selection/_combinatorial.py b/src/skfolio/model_selection/_combinatorial.py
index 4c78c13..bb7b79d 100644
--- a/src/skfolio/model_selection/_combinatorial.py
+++ b/src/skfolio/model_selection/_combinatorial.py
@@ -279,7 +279,7 @@ class CombinatorialPurgedCV(BaseCombinatorialCV):
             )
 
         fold_index_num = np.arange(n_samples) // (n_samples // self.n_folds)
-        fold_index_num[fold_index_num == self.n_folds] = self.n_folds - 1
+        fold_index_num[fold_index_num >= self.n_folds] = self.n_folds - 1
 
         index_train_test = np.zeros((n_samples, self.n_splits))
         for i in range(self.n_splits):
-- 
2.43.0


From c5467a13f1f11606cb2a54086a22856057fcb37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:38 +0000
Subject: [PATCH 05/34] fix: reject a repeated observation in
 MultiPeriodPortfolio.append

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 0ebad1d..c4a51b1 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -638,7 +638,7 @@ class MultiPeriodPortfolio(BasePortfolio):
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-            if start_date < prev_last_date:
+            if start_date <= prev_last_date:
                 raise ValueError(
                     f"Portfolios observations should not overlap: {prev_last_date} ->"
                     f" {start_date} "
-- 
2.43.0


From 9d655794aeb92a8e1380f034ed0693093622b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:38 +0000
Subject: [PATCH 06/34] fix: do not share the list of portfolios in
 MultiPeriodPortfolio.append

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index c4a51b1..a15bdee 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -644,7 +644,7 @@ class MultiPeriodPortfolio(BasePortfolio):
                     f" {start_date} "
                 )
         self._loaded = False
-        self._portfolios.append(portfolio)
+        self._portfolios = [*self._portfolios, portfolio]
         if len(self.observations) == 0:
             # We don"t concatenate an empty array as we cannot know the dtype before.
             self.observations = portfolio.observations
-- 
2.43.0


From c117ad5506599dcd85bedde2594c0a8d0dc7d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:17 +0000
Subject: [PATCH 07/34] fix: return the population from set_portfolio_params

---
 src/skfolio/population/_population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 683116e..be7b09b 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -109,6 +109,7 @@ class Population(list):
         for portfolio in self:
             for key, value in params.items():
                 setattr(portfolio, key, value)
+        return self
 
     @staticmethod
     def _validate_item(
-- 
2.43.0


From 8bf7196e98ea6bc37a322383fa4e7de335a7c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:25:50 +0000
Subject: [PATCH 08/34] fix: scale the tracking error limit when maximising a
 ratio

With MAXIMIZE_RATIO the problem is solved in homogenised weights, so every
right hand side has to be multiplied by the homogenisation factor. The
tracking error limit was not, and the fitted weights could exceed it.
---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 731b8fc..a4cbc4b 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -902,7 +902,7 @@ class MeanRisk(ConvexOptimization):
             )
             constraints += [
                 tracking_error * self._scale_constraints
-                <= self.max_tracking_error * self._scale_constraints
+                <= self.max_tracking_error * factor * self._scale_constraints
             ]
 
         # Turnover
-- 
2.43.0


From 395d0a18a992747d7d0fa9bdaf66c0c1a73b6a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:36:57 +0000
Subject: [PATCH 09/34] fix: only warn about a missing group in group
 cardinalities

group_cardinalities_to_matrix documents that an unknown group only raises a
warning unless raise_if_group_missing is set, but the error raised for it was
not the one caught. Skip the constraint when no group is left.
---
 src/skfolio/optimization/convex/_base.py | 6 ++++--
 src/skfolio/utils/equations.py           | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 46419a3..096fe0a 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -2177,7 +2177,8 @@ def _mip_weight_constraints_no_short_threshold(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     if isinstance(factor, cp.Variable):
         is_invested_factor = cp.Variable(n_assets, nonneg=True)
@@ -2253,7 +2254,8 @@ def _mip_weight_constraints_threshold_short(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     M = 1e3
     # Big M method to activate or deactivate constraints
diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index aa0122e..5345a21 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -182,7 +182,7 @@ def group_cardinalities_to_matrix(
             a_inequality.append(arr)
             b_inequality.append(card)
 
-        except GroupNotFoundError as e:
+        except EquationToMatrixError as e:
             if raise_if_group_missing:
                 raise
             warnings.warn(str(e), stacklevel=2)
-- 
2.43.0


From 7b0d327d06b3062faf746240060e79f42285de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:30 +0000
Subject: [PATCH 10/34] fix: leave the risk budget passed to RiskBudgeting
 unchanged

---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 6e3c779..62c46ce 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -491,7 +491,7 @@ class RiskBudgeting(ConvexOptimization):
                 fill_value=1e-10,
                 name="risk_budget",
             )
-            risk_budget[risk_budget == 0] = 1e-10
+            risk_budget = np.where(risk_budget == 0, 1e-10, risk_budget)
 
         # Variables
         w = cp.Variable(n_assets)
-- 
2.43.0


From 92afbf632422c7f7dadb0169f2d14f9574bb6c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:30 +0000
Subject: [PATCH 11/34] fix: leave the view confidences passed to
 BlackLitterman unchanged

---
 src/skfolio/prior/_black_litterman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index f7068df..bf85580 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -238,7 +238,9 @@ class BlackLitterman(BasePrior):
                 raise ValueError(
                     "all values of view_confidences must be between 0 and 1"
                 )
-            view_confidences[view_confidences == 0] = 1e-16
+            view_confidences = np.where(
+                view_confidences == 0, 1e-16, view_confidences
+            )
             alphas = 1 / view_confidences - 1
             omega = np.diag(
                 np.diag(
-- 
2.43.0


From c8d43579c31ba6d5108d8b0670e4fa9964d85648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:30 +0000
Subject: [PATCH 12/34] fix: leave the implied volatilities passed to
 ImpliedCovariance unchanged

---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 787999d..7581259 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -275,7 +275,7 @@ class ImpliedCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         _, n_assets = X.shape
         implied_vol = check_implied_vol(implied_vol=implied_vol, X=X)
-        implied_vol /= np.sqrt(self.annualized_factor)
+        implied_vol = implied_vol / np.sqrt(self.annualized_factor)
 
         if self.volatility_risk_premium_adj is not None:
             if np.isscalar(self.volatility_risk_premium_adj):
-- 
2.43.0


From 9bf9f4d814ab7c3f6b41929fb8eca83c74e0b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:30 +0000
Subject: [PATCH 13/34] fix: reject negative implied volatilities

---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 7581259..f09a482 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -452,6 +452,6 @@ def check_implied_vol(implied_vol: npt.ArrayLike, X: npt.ArrayLike) -> np.ndarra
                 f"expected {(n_observations, n_assets)}"
             )
 
-    skv.check_non_negative((n_observations, n_assets), "`implied_vol`")
+    skv.check_non_negative(implied_vol, "`implied_vol`")
     # noinspection PyTypeChecker
     return implied_vol
-- 
2.43.0


From 5cf12308307626d2e782e6074053cc282841fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:30 +0000
Subject: [PATCH 14/34] fix: leave the fitted moment estimators of
 EmpiricalPrior unchanged

---
 src/skfolio/prior/_empirical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/prior/_empirical.py b/src/skfolio/prior/_empirical.py
index 871d20c..7a16239 100644
--- a/src/skfolio/prior/_empirical.py
+++ b/src/skfolio/prior/_empirical.py
@@ -183,8 +183,8 @@ class EmpiricalPrior(BasePrior):
 
             # Using the property of aggregation across time we scale this distribution
             # to the investment horizon by the “square-root rule”.
-            mu *= self.investment_horizon
-            covariance *= self.investment_horizon
+            mu = mu * self.investment_horizon
+            covariance = covariance * self.investment_horizon
 
             # We convert it into a distribution of linear returns over the investment
             # horizon
-- 
2.43.0


From 3bd72009ed638daffcbbdd5f25b1dc23a2864851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:30 +0000
Subject: [PATCH 15/34] fix: use the absolute correlations in DropCorrelated
 when asked to

---
 src/skfolio/pre_selection/_drop_correlated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/pre_selection/_drop_correlated.py b/src/skfolio/pre_selection/_drop_correlated.py
index cb293c8..7bd5bde 100644
--- a/src/skfolio/pre_selection/_drop_correlated.py
+++ b/src/skfolio/pre_selection/_drop_correlated.py
@@ -80,6 +80,8 @@ class DropCorrelated(skf.SelectorMixin, skb.BaseEstimator):
 
         n_assets = X.shape[1]
         corr = np.corrcoef(X.T)
+        if self.absolute:
+            corr = np.abs(corr)
         mean_corr = corr.mean(axis=0)
 
         triu_idx = np.triu_indices(n_assets, 1)
-- 
2.43.0


From 96d6fa6fe15aa3d07bf3486b256bab0e69b7f59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:40 +0000
Subject: [PATCH 16/34] fix: accept costs and previous weights by asset name in
 hierarchical optimizations

---
 .../optimization/cluster/hierarchical/_base.py     | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 6fbd4a8..59426e3 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -299,12 +299,20 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             The risk measure of a theoretical portfolio defined by the weights
             vector.
         """
+        # Convert the dictionaries as the prior model returns carry no asset names
+        params = {
+            name: self._clean_input(
+                getattr(self, name), n_assets=len(weights), fill_value=0, name=name
+            )
+            for name in ["transaction_costs", "management_fees", "previous_weights"]
+            if isinstance(getattr(self, name), dict)
+        }
         ptf = Portfolio(
             X=prior_model.returns,
             weights=weights,
-            transaction_costs=self.transaction_costs,
-            management_fees=self.management_fees,
-            previous_weights=self.previous_weights,
+            transaction_costs=params.get("transaction_costs", self.transaction_costs),
+            management_fees=params.get("management_fees", self.management_fees),
+            previous_weights=params.get("previous_weights", self.previous_weights),
         )
         if self.risk_measure in [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION]:
             risk = ptf.variance_from_assets(assets_covariance=prior_model.covariance)
-- 
2.43.0


From 67c9c1d37425b1a128b1a698d0ea2bcb0263e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:15:40 +0000
Subject: [PATCH 17/34] fix: make deduplicated names distinct when a suffixed
 name already exists

---
 src/skfolio/utils/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2b3aadb..2621828 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -720,8 +720,11 @@ def deduplicate_names(names: npt.ArrayLike) -> list[str]:
     counts = {}
     for i, col in enumerate(names):
         cur_count = counts.get(col, 0)
-        if cur_count > 0:
-            names[i] = f"{col}_{cur_count}"
+        while cur_count > 0:
+            counts[col] = cur_count + 1
+            col = f"{col}_{cur_count}"
+            cur_count = counts.get(col, 0)
+        names[i] = col
         counts[col] = cur_count + 1
     return names
 
-- 
2.43.0


From 2969f45ccfc1eb13939ceb85d23d6c10ad79f3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:16:54 +0000
Subject: [PATCH 18/34] fix: count only the missing asset prices against
 nan_threshold

---
 src/skfolio/preprocessing/_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index 130bc4d..75b643e 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -105,7 +105,7 @@ def prices_to_returns(
         nan_threshold = float(nan_threshold)
         if not 0 < nan_threshold <= 1:
             raise ValueError("`nan_threshold` must be between 0 and 1")
-        count_nan = df.isna().sum(axis=1)
+        count_nan = df.iloc[:, :n_assets].isna().sum(axis=1)
         to_drop = count_nan[count_nan > n_assets * nan_threshold].index
         if len(to_drop) > 0:
             df.drop(to_drop, axis=0, inplace=True)
-- 
2.43.0


From 2b820ec8b862950d368abc9768a7e3c30a2209f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:11 +0000
Subject: [PATCH 19/34] fix: route fit parameters to the distribution estimator
 of SyntheticData

---
 src/skfolio/prior/_synthetic_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 37d3b5d..7881004 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -136,7 +136,7 @@ class SyntheticData(BasePrior):
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
         router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            distance_estimator=self.distribution_estimator,
+            distribution_estimator=self.distribution_estimator,
             method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
         )
         return router
-- 
2.43.0


From 516632880198216b38492fc8c98068c8f15a16d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:59 +0000
Subject: [PATCH 20/34] fix: empirical covariance of a single asset is a matrix

---
 src/skfolio/moments/covariance/_empirical_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_empirical_covariance.py b/src/skfolio/moments/covariance/_empirical_covariance.py
index a74d6eb..9fe75ec 100644
--- a/src/skfolio/moments/covariance/_empirical_covariance.py
+++ b/src/skfolio/moments/covariance/_empirical_covariance.py
@@ -96,6 +96,6 @@ class EmpiricalCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         if self.window_size is not None:
             X = X[-int(self.window_size) :]
-        covariance = np.cov(X.T, ddof=self.ddof)
+        covariance = np.atleast_2d(np.cov(X.T, ddof=self.ddof))
         self._set_covariance(covariance)
         return self
-- 
2.43.0


From 3686280207e95b5454379b5e2b69390d12acd5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:32 +0000
Subject: [PATCH 21/34] fix: reject minimum weights that exceed the budget in
 hierarchical optimisations

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 59426e3..fa78312 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -368,6 +368,10 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(min_weights < 0):
                 raise ValueError("`min_weights` must be strictly positive")
+            if np.sum(min_weights) > 1 + 1e-9:
+                raise ValueError(
+                    "The sum of `min_weights` must be less than or equal to 1.0"
+                )
 
         if self.max_weights is None:
             max_weights = np.ones(n_assets)
-- 
2.43.0


From 312644c169fe002e048027f9d27c01e23de1aa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:41 +0000
Subject: [PATCH 22/34] fix: hierarchical risk parity with all the assets of a
 branch excluded

---
 src/skfolio/optimization/cluster/hierarchical/_hrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_hrp.py b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
index fded2bb..74a1bb6 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_hrp.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
@@ -424,6 +424,9 @@ def _apply_weight_constraints_to_split_factor(
     value : float
         The transformed split factor alpha incorporating the weight constraints.
     """
+    if weights[left_cluster[0]] == 0:
+        # The whole branch is excluded by `max_weights`
+        return alpha
     alpha = min(
         np.sum(max_weights[left_cluster]) / weights[left_cluster[0]],
         max(np.sum(min_weights[left_cluster]) / weights[left_cluster[0]], alpha),
-- 
2.43.0


From ac618f606737038ad614ab0d170a382a1ec2ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:51:24 +0000
Subject: [PATCH 23/34] fix: optimal number of clusters of two assets

---
 src/skfolio/utils/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/utils/stats.py b/src/skfolio/utils/stats.py
index d2a405b..23f83ac 100644
--- a/src/skfolio/utils/stats.py
+++ b/src/skfolio/utils/stats.py
@@ -473,6 +473,9 @@ def compute_optimal_n_clusters(distance: np.ndarray, linkage_matrix: np.ndarray)
     cut_tree = sch.cut_tree(linkage_matrix)
     n = cut_tree.shape[1]
     max_clusters = min(n, max(8, round(np.sqrt(n))))
+    if max_clusters < 3:
+        # The two-order difference needs at least three points
+        return max_clusters
     dispersion = []
     for k in range(max_clusters):
         level = cut_tree[:, n - k - 1]
-- 
2.43.0


From 3dcde01b514c231a0e0c535ebdbe45798631b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:56 +0000
Subject: [PATCH 24/34] fix: replace an estimator of a composition by name with
 set_params

---
 src/skfolio/optimization/ensemble/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/ensemble/_base.py b/src/skfolio/optimization/ensemble/_base.py
index 544c455..aef3609 100644
--- a/src/skfolio/optimization/ensemble/_base.py
+++ b/src/skfolio/optimization/ensemble/_base.py
@@ -57,7 +57,7 @@ class BaseComposition(skb.BaseEstimator, ABC):
             # elements of length 2
             with suppress(TypeError):
                 item_names, _ = zip(*items, strict=True)
-                for name in params:
+                for name in list(params):
                     if "__" not in name and name in item_names:
                         self._replace_estimator(attr, name, params.pop(name))
 
-- 
2.43.0


From 66c3d9b5e6ebcaf8182f64f9e343a9e607c0a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:56 +0000
Subject: [PATCH 25/34] fix: selecting assets keeps the factors entire

---
 src/skfolio/utils/tools.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2621828..e581345 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -238,12 +238,13 @@ def safe_split(
         Data to be indexed.
 
     indices : ndarray of int, optional
-        Rows or columns to select from X and y.
+        Rows to select from X and y or columns to select from X.
         The default (`None`) is to select the entire data.
 
     axis : int, default=0
         The axis along which `X` will be sub-sampled. `axis=0` will select
-        rows while `axis=1` will select columns.
+        rows while `axis=1` will select columns. The columns of `y` are not those of
+        `X`, so `y` is kept entire with `axis=1`.
 
     Returns
     -------
@@ -254,10 +255,10 @@ def safe_split(
         Indexed targets.
     """
     X_subset = safe_indexing(X, indices=indices, axis=axis)
-    if y is not None:
+    if y is not None and axis == 0:
         y_subset = safe_indexing(y, indices=indices, axis=axis)
     else:
-        y_subset = None
+        y_subset = y
     return X_subset, y_subset
 
 
-- 
2.43.0


From 4e5edb5a2c3a4c26c4bc197e309b760912fe472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:56 +0000
Subject: [PATCH 26/34] fix: nested clusters optimisation with several factors

---
 src/skfolio/optimization/cluster/_nco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7ba3eb3..b466d3b 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -356,7 +356,7 @@ class NestedClustersOptimization(BaseOptimization):
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
-            X, y = skv.validate_data(self, X, y)
+            X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
         else:
             X = skv.validate_data(self, X)
-- 
2.43.0


From 74e70b372e80a706870bf748b642da9184c413f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:55:56 +0000
Subject: [PATCH 27/34] fix: nested clusters and stacking optimisations do not
 modify the cross-validation given

---
 src/skfolio/optimization/cluster/_nco.py       | 2 +-
 src/skfolio/optimization/ensemble/_stacking.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index b466d3b..f6c3070 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -326,7 +326,7 @@ class NestedClustersOptimization(BaseOptimization):
             cv_predictions = None
             test_indices = slice(None)
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
diff --git a/src/skfolio/optimization/ensemble/_stacking.py b/src/skfolio/optimization/ensemble/_stacking.py
index 5c957a9..3dbc6ae 100644
--- a/src/skfolio/optimization/ensemble/_stacking.py
+++ b/src/skfolio/optimization/ensemble/_stacking.py
@@ -309,7 +309,7 @@ class StackingOptimization(BaseOptimization, BaseComposition):
                 [estimator.predict(X) for estimator in self.estimators_]
             ).T
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
-- 
2.43.0


From 6cd77e554039eb471590a418c35e9e1d42dad94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:41 +0000
Subject: [PATCH 28/34] fix: cross-validation of selected assets selects their
 fit parameters

---
 src/skfolio/model_selection/_validation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 9c99ad2..d9a0c72 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -21,7 +21,7 @@ import sklearn.utils.parallel as skp
 from skfolio.model_selection._combinatorial import BaseCombinatorialCV
 from skfolio.population import Population
 from skfolio.portfolio import MultiPeriodPortfolio
-from skfolio.utils.tools import fit_and_predict, safe_split
+from skfolio.utils.tools import fit_and_predict, safe_indexing, safe_split
 
 
 def _routing_enabled():
@@ -176,6 +176,12 @@ def cross_val_predict(
         routed_params.splitter = sku.Bunch(split={})
         routed_params.estimator = sku.Bunch(fit=params)
 
+    # The fit parameters with one column per asset follow the selected columns of X
+    estimator_params = {
+        k: safe_indexing(v, indices=column_indices, axis=1) if np.ndim(v) == 2 else v
+        for k, v in routed_params.estimator.fit.items()
+    }
+
     cv = sks.check_cv(cv, y)
     splits = list(cv.split(X, y, **routed_params.splitter.split))
 
@@ -210,7 +216,7 @@ def cross_val_predict(
             y,
             train=train,
             test=test,
-            fit_params=routed_params.estimator.fit,
+            fit_params=estimator_params,
             method=method,
         )
         for train, test in splits
-- 
2.43.0


From 98bb3246149981d39172c4477e3c995711c457f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:39 +0000
Subject: [PATCH 29/34] fix: bootstrap uncertainty sets of a single asset

---
 src/skfolio/uncertainty_set/_bootstrap.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/uncertainty_set/_bootstrap.py b/src/skfolio/uncertainty_set/_bootstrap.py
index 6d3c140..05ae4ee 100644
--- a/src/skfolio/uncertainty_set/_bootstrap.py
+++ b/src/skfolio/uncertainty_set/_bootstrap.py
@@ -153,7 +153,7 @@ class BootstrapMuUncertaintySet(BaseMuUncertaintySet):
         for i in range(self.n_bootstrap_samples):
             covs[i] = np.cov(samples[i].T)
 
-        sigma = np.cov((mus - mu).T)
+        sigma = np.atleast_2d(np.cov((mus - mu).T))
         if self.diagonal:
             sigma = np.diag(np.diag(sigma))
 
@@ -291,10 +291,12 @@ class BootstrapCovarianceUncertaintySet(BaseCovarianceUncertaintySet):
         for i in range(self.n_bootstrap_samples):
             covs[i] = np.cov(samples[i].T)
 
-        sigma = np.cov(
-            (covs - covariance)
-            .reshape((self.n_bootstrap_samples, n_assets**2), order="F")
-            .T
+        sigma = np.atleast_2d(
+            np.cov(
+                (covs - covariance)
+                .reshape((self.n_bootstrap_samples, n_assets**2), order="F")
+                .T
+            )
         )
         if self.diagonal:
             sigma = np.diag(np.diag(sigma))
-- 
2.43.0


From 5793517e2d094d575ed02f2c247cd03008195a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:49:49 +0000
Subject: [PATCH 30/34] fix: cdf of a single point of the Gaussian and
 Student's t copulas is an array

---
 src/skfolio/distribution/copula/_gaussian.py  | 2 +-
 src/skfolio/distribution/copula/_student_t.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/distribution/copula/_gaussian.py b/src/skfolio/distribution/copula/_gaussian.py
index 5632ea0..036e086 100644
--- a/src/skfolio/distribution/copula/_gaussian.py
+++ b/src/skfolio/distribution/copula/_gaussian.py
@@ -213,7 +213,7 @@ class GaussianCopula(BaseBivariateCopula):
             mean=np.array([0, 0]),
             cov=np.array([[1, self.rho_], [self.rho_, 1]]),
         )
-        return cdf
+        return np.atleast_1d(cdf)
 
     def partial_derivative(
         self, X: npt.ArrayLike, first_margin: bool = False
diff --git a/src/skfolio/distribution/copula/_student_t.py b/src/skfolio/distribution/copula/_student_t.py
index 1440c92..b5fd8b6 100644
--- a/src/skfolio/distribution/copula/_student_t.py
+++ b/src/skfolio/distribution/copula/_student_t.py
@@ -265,7 +265,7 @@ class StudentTCopula(BaseBivariateCopula):
             shape=np.array([[1, self.rho_], [self.rho_, 1]]),
             df=self.dof_,
         )
-        return cdf
+        return np.atleast_1d(cdf)
 
     def partial_derivative(
         self, X: npt.ArrayLike, first_margin: bool = False
-- 
2.43.0


From 841f9dd2fc2216222971bb18ea91512778d12417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:50:12 +0000
Subject: [PATCH 31/34] fix: independent copula among the candidates of the
 copula selection

---
 src/skfolio/distribution/copula/_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/copula/_selection.py b/src/skfolio/distribution/copula/_selection.py
index 19785b7..fa27153 100644
--- a/src/skfolio/distribution/copula/_selection.py
+++ b/src/skfolio/distribution/copula/_selection.py
@@ -94,7 +94,7 @@ def select_bivariate_copula(
                 "The candidate copula must inherit from `BaseBivariateCopula`"
             )
         copula = sk.clone(copula)
-        if copula.itau and copula.kendall_tau is None:
+        if getattr(copula, "itau", False) and copula.kendall_tau is None:
             # Faster computation by reusing kendall tau if itau
             copula.kendall_tau = kendall_tau
         copula.fit(X)
-- 
2.43.0


From 09e578aca4d72226ae9b781756817f0679f0cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:15:38 +0000
Subject: [PATCH 32/34] fix: condition a vine copula without marginals on an
 open interval

An open bound became an infinite uniform bound and sampling raised
OverflowError.
---
 src/skfolio/distribution/multivariate/_vine_copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 5f97db1..ba044d2 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -802,7 +802,7 @@ class VineCopula(BaseMultivariateDist):
                     u_min = 0.0 if np.isneginf(min_value) else dist.cdf(min_value)
                     u_max = 1.0 if np.isposinf(max_value) else dist.cdf(max_value)
                 else:
-                    u_min, u_max = min_value, max_value
+                    u_min, u_max = np.clip([min_value, max_value], 0.0, 1.0)
 
                 # Sample uniformly in the transformed interval.
                 samples = rng.uniform(low=u_min, high=u_max, size=n_samples)
-- 
2.43.0


From ef2c42bdda3b29f70f292f0ec0ec62157e2b9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:30 +0000
Subject: [PATCH 33/34] fix: score samples of a vine copula with the density of
 the returns

With log_transform the density of the log returns was returned, which
does not integrate to one over the returns.
---
 src/skfolio/distribution/multivariate/_vine_copula.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index ba044d2..d6f7086 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -478,8 +478,11 @@ class VineCopula(BaseMultivariateDist):
         X = skv.validate_data(self, X, dtype=np.float64, reset=False)
         self.clear_cache()
 
+        log_jacobian = 0.0
         if np.any(self._log_transform):
             X = np.where(self._log_transform, np.log1p(X), X)
+            # Change of variable from log returns to returns
+            log_jacobian = np.sum(X[:, self._log_transform], axis=1)
 
         if not self.fit_marginals:
             score_samples = np.zeros(len(X))
@@ -509,7 +512,7 @@ class VineCopula(BaseMultivariateDist):
                 score_samples += edge.copula.score_samples(X=edge.get_X())
         self.clear_cache()
 
-        return score_samples
+        return score_samples - log_jacobian
 
     def sample(
         self,
-- 
2.43.0


From 0d0fbe1977a5f75ee6b162316c4a7c402b124724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:43:03 +0000
Subject: [PATCH 34/34] fix: keep the settings of a multi-period portfolio in
 arithmetic

Negating, scaling, adding or subtracting multi-period portfolios reset
the annualisation factor, risk-free rate, betas and other settings to
their defaults.
---
 .../portfolio/_multi_period_portfolio.py      | 62 ++++++-------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index a15bdee..c089b65 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -16,7 +16,7 @@ import pandas as pd
 import skfolio.typing as skt
 from skfolio.portfolio._base import BasePortfolio
 from skfolio.portfolio._portfolio import Portfolio
-from skfolio.utils.tools import deduplicate_names
+from skfolio.utils.tools import args_names, deduplicate_names
 
 
 class MultiPeriodPortfolio(BasePortfolio):
@@ -396,39 +396,19 @@ class MultiPeriodPortfolio(BasePortfolio):
         return value in self._portfolios
 
     def __neg__(self):
-        return self.__class__(
-            portfolios=[-p for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([-p for p in self])
 
     def __abs__(self):
-        return self.__class__(
-            portfolios=[abs(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([abs(p) for p in self])
 
     def __round__(self, n: int):
-        return self.__class__(
-            portfolios=[p.__round__(n) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([p.__round__(n) for p in self])
 
     def __floor__(self):
-        return self.__class__(
-            portfolios=[np.floor(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([np.floor(p) for p in self])
 
     def __trunc__(self):
-        return self.__class__(
-            portfolios=[np.trunc(p) for p in self],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
-        )
+        return self._with_portfolios([np.trunc(p) for p in self])
 
     def __add__(self, other):
         if not isinstance(other, self.__class__):
@@ -438,10 +418,8 @@ class MultiPeriodPortfolio(BasePortfolio):
             )
         if len(self) != len(other):
             raise TypeError("Cannot add two MultiPeriodPortfolio of different sizes")
-        return self.__class__(
-            portfolios=[p1 + p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+        return self._with_portfolios(
+            [p1 + p2 for p1, p2 in zip(self, other, strict=True)]
         )
 
     def __sub__(self, other):
@@ -454,10 +432,8 @@ class MultiPeriodPortfolio(BasePortfolio):
             raise TypeError(
                 "Cannot subtract two MultiPeriodPortfolio of different sizes"
             )
-        return self.__class__(
-            portfolios=[p1 - p2 for p1, p2 in zip(self, other, strict=True)],
-            tag=self.tag,
-            fitness_measures=self.fitness_measures,
+        return self._with_portfolios(
+            [p1 - p2 for p1, p2 in zip(self, other, strict=True)]
         )
 
     def __mul__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
@@ -465,9 +441,7 @@ class MultiPeriodPortfolio(BasePortfolio):
             portfolios = [p * other for p in self]
         else:
             portfolios = [p * a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._with_portfolios(portfolios)
 
     __rmul__ = __mul__
 
@@ -476,20 +450,22 @@ class MultiPeriodPortfolio(BasePortfolio):
             portfolios = [p // other for p in self]
         else:
             portfolios = [p // a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._with_portfolios(portfolios)
 
     def __truediv__(self, other: numbers.Number | list[numbers.Number] | np.ndarray):
         if np.isscalar(other):
             portfolios = [p / other for p in self]
         else:
             portfolios = [p / a for p, a in zip(self, other, strict=True)]
-        return self.__class__(
-            portfolios=portfolios, tag=self.tag, fitness_measures=self.fitness_measures
-        )
+        return self._with_portfolios(portfolios)
 
     # Private method
+    def _with_portfolios(self, portfolios: list[Portfolio]) -> "MultiPeriodPortfolio":
+        """Return a MultiPeriodPortfolio of `portfolios` with the same settings."""
+        args = {arg: getattr(self, arg) for arg in args_names(self.__init__)}
+        args["portfolios"] = portfolios
+        return self.__class__(**args)
+
     def _set_portfolios(self, portfolios: list[Portfolio] | None = None) -> None:
         """Set the returns, observations and portfolios list.
 
-- 
2.43.0

