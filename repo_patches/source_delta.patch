From fca9a768962d72661ea901cc784544a501215040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 01/20] fix: Sejong Oh feature importance draws from the
 method's seeded generator

---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From 37078e8e172a05395673d047201c2ea9c8e6c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 02/20] fix: permutation importance covers all columns when
 features is None

---
 .../model_agnostic/_permutational_importance.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..87deb10 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -74,6 +75,7 @@ class PermutationImportance(FeatureImportanceMethod):
         pd.DataFrame
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
+        features = all_if_none(X.columns, features)
         self.feature_importance = _permutation_importance(
             model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
         )
-- 
2.43.0


From 02965682c986acbcbad867d54b696c7d7e2dbc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 03/20] fix: sample features and target by the same row
 positions

---
 artemis/_utilities/ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..ae03aae 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,8 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        rows = pd.Series(range(len(X))).sample(n, random_state=random_generator).values
+        return X.iloc[rows], y.iloc[rows] if hasattr(y, "iloc") else np.asarray(y)[rows]
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From 306ed61c36d617f474f933f3bdf16f2fd2f92cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 04/20] fix: refit of H-statistic without one vs all drops the
 previous one vs all table

---
 .../partial_dependence_based/_friedman_h_statistic.py          | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..ee12a68 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -105,8 +105,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             If True, one vs all interactions will be calculated. Default is True.
         """
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
-            self.ova = self._calculate_ova_interactions_from_pd(show_progress)
+        self.ova = self._calculate_ova_interactions_from_pd(show_progress) if calculate_ova else None
 
     def plot(self,
              vis_type: str = VisualizationType.HEATMAP,
-- 
2.43.0


From 257dd955fd06cf5dff5a6f24576b2bdab82c059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 05/20] fix: H-statistic fitted without one vs all values can
 be plotted

---
 .../partial_dependence_based/_friedman_h_statistic.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ee12a68..af47695 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -175,7 +175,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (self.ova is None and vis_type == VisualizationType.BAR_CHART_OVA):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From f79ea4e6c9ed33c163d24112690ddc4cc1db743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 06/20] fix: profile plots of an unfitted method raise
 MethodNotFittedException

---
 .../model_agnostic/partial_dependence_based/_pdp.py          | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..ba8810f 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -10,6 +10,7 @@ import seaborn as sns
 from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
 from artemis.interactions_methods._method import FeatureInteractionMethod
 from artemis._utilities.domain import ProgressInfoLog, VisualizationType
+from artemis._utilities.exceptions import MethodNotFittedException
 from artemis._utilities.ops import get_predict_function, sample_if_not_none, all_if_none
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from artemis._utilities.zenplot import (
@@ -132,6 +133,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         figsize : (float, float) 
             Size of plot. Default is (8, 6).
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
         plt.figure(figsize=figsize)
         if feature2 is not None:
             pair_key = self.pd_calculator._get_pair_key((feature1, feature2))
@@ -197,6 +200,8 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         ----------
         - https://www.jstatsoft.org/article/view/v095i04
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
         fig = plt.figure(figsize=figsize)
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
-- 
2.43.0


From af1921bede3e02c242f6f03c8d29855683ed03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 07/20] fix: summary panels are drawn with the method's
 ordering directions

---
 artemis/visualizer/_visualizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..9013365 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -51,6 +51,7 @@ class Visualizer:
                 title=title,
                 figsize=figsize,
                 interactions_ascending_order=interactions_ascending_order,
+                importance_ascending_order=importance_ascending_order,
                 _f1_name=_feature_column_name_1,
                 _f2_name=_feature_column_name_2,
                 _directed=_directed,
@@ -405,6 +406,7 @@ class Visualizer:
             title: str = "default",
             figsize: Tuple[float, float] = (8, 6),
             interactions_ascending_order: bool = False,
+            importance_ascending_order: bool = False,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
             _directed: bool = False,
@@ -425,6 +427,7 @@ class Visualizer:
             ovo,
             feature_importance,
             interactions_ascending_order=interactions_ascending_order,
+            importance_ascending_order=importance_ascending_order,
             ax=ax1,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
@@ -434,6 +437,7 @@ class Visualizer:
         self.plot_interaction_graph(
             ovo,
             feature_importance,
+            interactions_ascending_order=interactions_ascending_order,
             ax=ax2,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
-- 
2.43.0


From 317b5e01d456d51f23dea19765e21a14330576d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 08/20] fix: one vs all bar chart uses the requested title

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 9013365..f11d81c 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -70,7 +70,7 @@ class Visualizer:
                 **kwargs,
             )
         elif vis_type == VisualizationType.BAR_CHART_OVA:
-            self.plot_barchart_ova(ova, figsize=figsize, **kwargs)
+            self.plot_barchart_ova(ova, title=title, figsize=figsize, **kwargs)
         elif vis_type == VisualizationType.HEATMAP:
             self.plot_heatmap(
                 ovo,
-- 
2.43.0


From 0c002fcaf714f39fd7d81c54ce8fbc70d4c85b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 09/20] fix: heatmap ordering keeps features whose names differ
 only in case apart

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index f11d81c..5e13814 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -635,9 +635,9 @@ class Visualizer:
         for f in features:
             f_copy = features.copy()
             f_copy.remove(f)
-            scores[f.lower()] = feature_importance[f] * 1 / lambda_1 + max(matrix[f][f_copy]) * 1 / lambda_2
+            scores[f] = feature_importance[f] * 1 / lambda_1 + max(matrix[f][f_copy]) * 1 / lambda_2
 
-        ind = matrix.sort_index(key=lambda x: [scores[f_lower] for f_lower in x.str.lower()], ascending=asc_order).index
+        ind = matrix.sort_index(key=lambda x: [scores[f] for f in x], ascending=asc_order).index
         m = matrix.reindex(ind)  # re-order rows
 
         return m[list(ind)]  # re-order columns
-- 
2.43.0


From cc527fdbf64a96d97a3e42da898936ccbedbfa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 10/20] fix: depth based split score importance is listed most
 important first

---
 artemis/importance_methods/model_specific/_split_score.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..8d26225 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -75,8 +75,10 @@ class SplitScoreImportance(FeatureImportanceMethod):
         self.full_result = _calculate_all_feature_importance(
             trees_df, features, selected_metric
         )
-        self.feature_importance = _select_metric(self.full_result, selected_metric)
         self.selected_metric = selected_metric
+        self.feature_importance = _select_metric(
+            self.full_result, selected_metric, self.importance_ascending_order
+        )
 
         return self.feature_importance
 
@@ -141,12 +143,12 @@ def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
     )
 
 
-def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
+def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str, ascending: bool):
     feature_importance = importance_full_result[
         ["split_feature", selected_metric]
     ].rename(columns={"split_feature": "Feature", selected_metric: "Importance"})
     return feature_importance.sort_values(
-        by="Importance", ascending=False, ignore_index=True
+        by="Importance", ascending=ascending, ignore_index=True
     )
 
 
-- 
2.43.0


From 923440a44e65bd10a37f041026ee4b442918721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 11/20] fix: correlation box always describes the two methods
 being plotted

---
 artemis/comparison/_method_comparator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..0c65c4c 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -138,9 +138,7 @@ class FeatureInteractionMethodComparator:
 
         if add_correlation_box:
 
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
+            corr = self.correlations(method1, method2)
 
             _add_correlation_box(ax, corr)
 
-- 
2.43.0


From e64e26bf238b18bd70d4a57da5b358717f1d28ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 12/20] fix: pairs whose concatenated names coincide are not
 merged in comparisons

---
 artemis/comparison/_method_comparator.py                        | 2 +-
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0c65c4c..2dff5f7 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -232,4 +232,4 @@ def _suitable_for_ovo(method: FeatureInteractionMethod):
 def _alphabetical_order_pair(row):
     features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
 
-    return "-".join(features_alphabetical)
+    return tuple(features_alphabetical)
diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..3a14e74 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From d9faa2e8f0d29a206a6c7b9dadd9debf8f2c5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 13/20] fix: a rejected split score metric leaves the fitted
 method unchanged

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..e334e14 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -87,8 +87,8 @@ class SplitScoreMethod(FeatureInteractionMethod):
         """
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
-        self.metric = interaction_selected_metric
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
+        self.metric = interaction_selected_metric
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
         )
-- 
2.43.0


From baaf76372c7043b3fe90777d04aa71a8dd0a2441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:55 +0000
Subject: [PATCH 14/20] fix: split score works for models whose trees have no
 nested splits

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index e334e14..b34e369 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -206,7 +206,7 @@ def _calculate_full_result(
         .progress_apply(_prepare_stats, package=model_package)
         .reset_index(drop=True)
     )
-    return full_result[_COLUMNS_TO_CHOSE]
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From 2382b78996231647081b649ac514515eb2ff7d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:56 +0000
Subject: [PATCH 15/20] fix: every interaction method remembers the explained
 model

---
 .../model_agnostic/performance_based/_sejong_oh.py               | 1 +
 .../interactions_methods/model_specific/gb_trees/_split_score.py | 1 +
 .../model_specific/random_forest/_conditional_minimal_depth.py   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 9d9c0b3..311eba8 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -97,6 +97,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         show_progress : bool
             If True, progress bar will be shown. Default is False.
         """
+        self.model = model
         self.X_sampled, self.y_sampled = sample_both_if_not_none(self._random_generator, X, y_true, n)
         self.features_included = all_if_none(X.columns, features)
         self.pairs = list(combinations(self.features_included, 2))
diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index b34e369..e92f6f9 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -88,6 +88,7 @@ class SplitScoreMethod(FeatureInteractionMethod):
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
+        self.model = model
         self.metric = interaction_selected_metric
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 3a14e74..65c7d92 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -79,6 +79,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         show_progress : bool
             If True, progress bar will be shown. Default is False.
         """
+        self.model = model
         self.features_included = model.feature_names_in_.tolist()
         self.pairs = list(combinations(self.features_included, 2))
         column_dict = _make_column_dict(model.feature_names_in_)
-- 
2.43.0


From b7291e24627bce2689648a3cdcfd41e9d2110be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:56 +0000
Subject: [PATCH 16/20] fix: partial dependence visualizer passes its axes
 under the name scikit-learn expects

---
 artemis/visualizer/_pdp_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_pdp_visualizer.py b/artemis/visualizer/_pdp_visualizer.py
index 50d9ce1..4c59a4c 100644
--- a/artemis/visualizer/_pdp_visualizer.py
+++ b/artemis/visualizer/_pdp_visualizer.py
@@ -58,6 +58,6 @@ class PartialDependenceVisualizer:
                                                 self.X,
                                                 features,
                                                 grid_resolution=grid_resolution,
-                                                _ax=ax,
+                                                ax=ax,
                                                 **kwargs)
         ax.set_title(title)
-- 
2.43.0


From 36d441525ef095eb293b7ac72e1b110d2d0dfde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:50 +0000
Subject: [PATCH 17/20] fix: rank correlations align the two methods by feature
 pair, not by spelling

---
 artemis/comparison/_method_comparator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 2dff5f7..a77ee79 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -174,12 +174,13 @@ class FeatureInteractionMethodComparator:
 
 
 def _rank_interaction_values_encoded(method1, method2):
-    rank_features_m1 = method1._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_m2 = method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_encoded = pd.concat(
-        [rank_features_m1.astype('category').cat.codes, rank_features_m2.astype('category').cat.codes], axis=1)
+    return pd.concat([_rank_by_pair(method1), _rank_by_pair(method2)], axis=1)
 
-    return rank_features_encoded
+
+def _rank_by_pair(method):
+    pairs = method._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1).drop_duplicates()
+
+    return pd.Series(range(len(pairs)), index=pd.Index(pairs, tupleize_cols=False))
 
 
 def _title_x_y(ax, m1_name, m2_name):
-- 
2.43.0


From afcc1ad06cba4eb1a1b4c9db14cb7f7a314c3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:53 +0000
Subject: [PATCH 18/20] fix: comparing with an unfitted method leaves no empty
 figure behind

---
 artemis/comparison/_method_comparator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index a77ee79..609dc47 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -112,6 +112,7 @@ class FeatureInteractionMethodComparator:
         -------
         Figure
         """
+        _assert_fitted_ovo(method1, method2)
         m1_name, m2_name = method1.method, method2.method
         fig, ax = plt.subplots(figsize=figsize)
         ax.set_axisbelow(True)
-- 
2.43.0


From 8b06968fcfda84e24d80550824ea673f2d2cf53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:53 +0000
Subject: [PATCH 19/20] fix: last zenplot panel is labelled with its own second
 feature

---
 .../model_agnostic/partial_dependence_based/_pdp.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index ba8810f..c121cf4 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -284,9 +284,9 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
                 if zenpath_length - 1 == i:
                     if id_col > id_row:
-                        ax.set_ylabel(pair[1])
+                        ax.set_ylabel(pair[0])
                     else:
-                        ax.set_title(pair[1], size=10)
+                        ax.set_title(pair[0], size=10)
             else:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
-- 
2.43.0


From f317cbd327ab0805a2b3c941cc2504d86fc434c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:45 +0000
Subject: [PATCH 20/20] fix: pair bar chart of a summary lists the strongest
 pair first

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 5e13814..d10f2d0 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -365,7 +365,7 @@ class Visualizer:
             grid=True,
             ax=ax,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_barchart_ova(
             self,
-- 
2.43.0

