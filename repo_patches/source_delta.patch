From a57803f058a4f404f9c611ce4c2fa916c922fb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 01/46] fix: H-statistic of features without any effect is 0,
 not a ratio of rounding noise

---
 .../partial_dependence_based/_friedman_h_statistic.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index ceeaa46..fd1ae1d 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -223,4 +223,8 @@ def _calculate_hstat_value(pd_i: np.ndarray, pd_versus: np.ndarray, pd_i_versus:
     nominator = (center(pd_i_versus) - center(pd_i) - center(pd_versus))**2
     if normalized:
         denominator = center(pd_i_versus)**2
+        # flat effects leave only rounding noise in both sums, their ratio is meaningless
+        noise_level = 1e-12 * max(np.max(np.abs(values)) for values in (pd_i, pd_versus, pd_i_versus))
+        if np.sqrt(max(np.max(nominator), np.max(denominator))) <= noise_level:
+            return 0.0
     return np.sum(nominator) / np.sum(denominator) if normalized else np.sqrt(np.mean(nominator))
-- 
2.43.0


From 4d57eb442c41f7500643928bd1e0b5823822b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 02/46] fix: Greenwell method does not fail for features
 constant in the (sampled) data

---
 .../partial_dependence_based/_greenwell.py            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
index 9468a40..a112533 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_greenwell.py
@@ -80,9 +80,9 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         for pair in self.pairs:
             pair = self.pd_calculator._get_pair_key((pair[0], pair[1]))
             pd_values = self.pd_calculator.get_pd_pairs(pair[0], pair[1])
-            res_j = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
+            res_j = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 1, pd_values,
                                                                       is_numerical=pair[1] in num_features))
-            res_i = np.apply_along_axis(stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
+            res_i = np.apply_along_axis(_stdev, 0, np.apply_along_axis(_calc_conditional_imp, 0, pd_values,
                                                                       is_numerical=pair[0] in num_features))
             value_pairs.append([pair[0], pair[1], (res_j + res_i) / 2])
         return pd.DataFrame(value_pairs, columns=["Feature 1", "Feature 2", self.method]).sort_values(
@@ -90,5 +90,10 @@ class GreenwellMethod(PartialDependenceBasedMethod):
         ).fillna(0)
 
 
+def _stdev(values: np.ndarray):
+    # feature with a single distinct value has no variability
+    return stdev(values) if len(values) > 1 else 0.0
+
+
 def _calc_conditional_imp(pd_values: np.ndarray, is_numerical: bool):
-    return stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
+    return _stdev(pd_values) if is_numerical else (np.max(pd_values) - np.min(pd_values)) / 4
-- 
2.43.0


From ba3e278491bad0e0c3f5d93e53accf149d6d6b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 03/46] fix: sampled target values belong to the sampled rows
 for any index of the data

---
 artemis/_utilities/ops.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index f399978..97d2b89 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -26,8 +26,9 @@ def sample_both_if_not_none(random_generator, X: pd.DataFrame, y: np.array, n: i
     if n is None:
         return X, y
     else:
-        X_sampled = X.sample(n, random_state=random_generator)
-        return X_sampled, y[X_sampled.index]
+        positions = X.reset_index(drop=True).sample(n, random_state=random_generator).index
+        y_sampled = y.iloc[positions] if isinstance(y, pd.Series) else np.asarray(y)[positions]
+        return X.iloc[positions], y_sampled
 
 
 def all_if_none(X_columns: pd.DataFrame, columns: List[str]):
-- 
2.43.0


From 269383dd5b6deb29bee747c4e5151ede08431486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 04/46] fix: random_state of SejongOhMethod makes its feature
 importance reproducible

---
 .../model_agnostic/performance_based/_sejong_oh.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 7468f36..9d9c0b3 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -103,7 +103,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         self.ovo = _perf_based_ovo(self, model, self.X_sampled, self.y_sampled, n_repeat, show_progress)
 
         # calculate feature importance
-        self._feature_importance_obj = PermutationImportance(self.metric)
+        self._feature_importance_obj = PermutationImportance(self.metric, random_state=self._random_generator)
         self.feature_importance = self._feature_importance_obj.importance(model, X=self.X_sampled,
                                                                             y_true=self.y_sampled,
                                                                             n_repeat=n_repeat,
-- 
2.43.0


From 9bbe247a311ef308a7f3fbbd93651dab9d23fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 05/46] fix: PermutationImportance uses all features when
 features is None

---
 .../model_agnostic/_permutational_importance.py                | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index 4901bbd..f252286 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -6,6 +6,7 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod, ProgressInfoLog, ProblemType
+from artemis._utilities.ops import all_if_none
 from artemis._utilities.performance_metrics import Metric, RMSE
 
 
@@ -75,7 +76,7 @@ class PermutationImportance(FeatureImportanceMethod):
             Result dataframe containing feature importance with columns: "Feature", "Importance"
         """
         self.feature_importance = _permutation_importance(
-            model, X, y_true, self.metric, n_repeat, features, show_progress, self._random_generator
+            model, X, y_true, self.metric, n_repeat, all_if_none(X.columns, features), show_progress, self._random_generator
         )
         return self.feature_importance
     @property
-- 
2.43.0


From 19a58b7ec9baf5b58b7ad57a98c241ae51c49cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 06/46] fix: H-statistic fitted without one vs all values can
 be plotted and keeps no stale ones

---
 .../partial_dependence_based/_friedman_h_statistic.py        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index fd1ae1d..65cf1d2 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -105,8 +105,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             If True, one vs all interactions will be calculated. Default is True.
         """
         super().fit(model, X, n, predict_function, features, show_progress, batchsize, pd_calculator)
-        if calculate_ova:
-            self.ova = self._calculate_ova_interactions_from_pd(show_progress)
+        self.ova = self._calculate_ova_interactions_from_pd(show_progress) if calculate_ova else None
 
     def plot(self,
              vis_type: str = VisualizationType.HEATMAP,
@@ -176,7 +175,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
             Used for 'graph' visualization. Minimum (or maximum, depends on method) value of interaction to display
             corresponding edge on visualization. Default depends on the interaction method.
         """
-        if self.ova is None:
+        if self.ovo is None or (vis_type == VisualizationType.BAR_CHART_OVA and self.ova is None):
             raise MethodNotFittedException(self.method)
 
         self.visualizer.plot(self.ovo,
-- 
2.43.0


From 88b78484ce06e6175e1891113c4fb6ad46eebafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 07/46] fix: PartialDependenceVisualizer passes axes with the
 parameter scikit-learn accepts

---
 artemis/visualizer/_pdp_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_pdp_visualizer.py b/artemis/visualizer/_pdp_visualizer.py
index 50d9ce1..4c59a4c 100644
--- a/artemis/visualizer/_pdp_visualizer.py
+++ b/artemis/visualizer/_pdp_visualizer.py
@@ -58,6 +58,6 @@ class PartialDependenceVisualizer:
                                                 self.X,
                                                 features,
                                                 grid_resolution=grid_resolution,
-                                                _ax=ax,
+                                                ax=ax,
                                                 **kwargs)
         ax.set_title(title)
-- 
2.43.0


From 79a2b3da0086c41b32b52d4e7e37688266d19c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 08/46] fix: conditional minimal depth is correct for trees
 grown best-first (max_leaf_nodes)

---
 .../_conditional_minimal_depth.py             | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index 7525c24..e976616 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -233,15 +233,31 @@ def _bfs(tree: pd.DataFrame):
 
 
 def _tree_representation(decision_tree_object):
-    """Efficient, sklearn-like table tree representation. Row = node in the tree."""
+    """
+    Efficient, sklearn-like table tree representation. Row = node in the tree.
+    Nodes are numbered in preorder, also for trees grown best-first (`max_leaf_nodes`), so each subtree is an id range.
+    """
+    order = _preorder(decision_tree_object.children_left, decision_tree_object.children_right)
+    new_id = np.argsort(order)
+    left, right = decision_tree_object.children_left[order], decision_tree_object.children_right[order]
     return pd.DataFrame({
         "id": range(decision_tree_object.node_count),
-        "left_child": decision_tree_object.children_left,
-        "right_child": decision_tree_object.children_right,
-        "split_variable": decision_tree_object.feature,
+        "left_child": np.where(left >= 0, new_id[left], left),
+        "right_child": np.where(right >= 0, new_id[right], right),
+        "split_variable": decision_tree_object.feature[order],
     })
 
 
+def _preorder(children_left: np.ndarray, children_right: np.ndarray) -> np.ndarray:
+    order, stack = [], [0]
+    while stack:
+        node = stack.pop()
+        order.append(node)
+        if children_left[node] >= 0:
+            stack += [children_right[node], children_left[node]]
+    return np.array(order)
+
+
 def _conditional_minimal_depth(split_var_to_nodes: dict, depths: np.array, tree_id: int, column_size: int):
     """
     Main algorithm for efficient conditional minimal depth calculation.
-- 
2.43.0


From d12ba0af337a923ac02250e0d998073e24cee0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 09/46] fix: conditional minimal depth pairs are not mixed up
 when concatenated names coincide

---
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index e976616..d93c05c 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -56,7 +56,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         if self.ovo is None:
             raise MethodNotFittedException(self.method)
         compare_ovo = self.ovo.copy().rename(columns={"root_variable": "Feature 1", "variable": "Feature 2"})
-        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: "".join(sorted(x)), axis=1)
+        compare_ovo['id'] = compare_ovo[["Feature 1", "Feature 2"]].apply(lambda x: tuple(sorted(x)), axis=1)
         return (compare_ovo.groupby("id")
                            .agg({"Feature 1": "first", "Feature 2": "first", self.method: "mean"})
                            .sort_values(InteractionMethod.CONDITIONAL_MINIMAL_DEPTH,
-- 
2.43.0


From 3ee90762616de6b8d4a0f4fce3b2b0158bdc0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 10/46] fix: method comparison correlates strengths of the same
 pairs instead of alphabetical codes of pair names

---
 artemis/comparison/_method_comparator.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 0cc98ce..42635d1 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -176,12 +176,18 @@ class FeatureInteractionMethodComparator:
 
 
 def _rank_interaction_values_encoded(method1, method2):
-    rank_features_m1 = method1._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_m2 = method2._compare_ovo.apply(lambda row: _alphabetical_order_pair(row), axis=1)
-    rank_features_encoded = pd.concat(
-        [rank_features_m1.astype('category').cat.codes, rank_features_m2.astype('category').cat.codes], axis=1)
+    values = pd.concat([_values_by_pair(method1), _values_by_pair(method2)], axis=1, join="inner", keys=[0, 1])
 
-    return rank_features_encoded
+    return pd.concat([values[i].rank(ascending=not method._interactions_ascending_order)
+                      for i, method in enumerate([method1, method2])], axis=1)
+
+
+def _values_by_pair(method):
+    """Values indexed by (unordered) pair, the strongest one if both directions are present."""
+    values = pd.Series({pair: value for pair, value in zip(
+        method._compare_ovo.apply(_alphabetical_order_pair, axis=1)[::-1], method._compare_ovo[method.method][::-1])})
+
+    return values
 
 
 def _title_x_y(ax, m1_name, m2_name):
@@ -234,4 +240,4 @@ def _suitable_for_ovo(method: FeatureInteractionMethod):
 def _alphabetical_order_pair(row):
     features_alphabetical = sorted([row["Feature 1"], row["Feature 2"]])
 
-    return "-".join(features_alphabetical)
+    return tuple(features_alphabetical)
-- 
2.43.0


From 30d08b2c9f513076eaa0390955f4690d63620d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 11/46] fix: correlation box shows correlations of the methods
 being plotted

---
 artemis/comparison/_method_comparator.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 42635d1..9d3cbf1 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -138,11 +138,7 @@ class FeatureInteractionMethodComparator:
 
         if add_correlation_box:
 
-            corr = self.correlations_df
-            if self.correlations_df is None:
-                corr = self.correlations(method1, method2)
-
-            _add_correlation_box(ax, corr)
+            _add_correlation_box(ax, self.correlations(method1, method2))
 
         _title_x_y(ax, m1_name, m2_name)
 
-- 
2.43.0


From 73513defa7caf4d5b6c2ca567dd29c6b217b304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:38 +0000
Subject: [PATCH 12/46] fix: comparison plot of methods reporting different
 pairs shows the common ones

---
 artemis/comparison/_method_comparator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artemis/comparison/_method_comparator.py b/artemis/comparison/_method_comparator.py
index 9d3cbf1..838c08f 100644
--- a/artemis/comparison/_method_comparator.py
+++ b/artemis/comparison/_method_comparator.py
@@ -119,9 +119,12 @@ class FeatureInteractionMethodComparator:
         circle_r = 0.2 * min(max(method1._compare_ovo[m1_name]), max(method2._compare_ovo[m2_name]))
 
         x, y = [], []
+        pairs_m2 = _values_by_pair(method2).index
         for index, row in method1._compare_ovo.iterrows():
 
             f1, f2 = row["Feature 1"], row["Feature 2"]
+            if _alphabetical_order_pair(row) not in pairs_m2:
+                continue
             x_curr, y_curr = row[method1.method], method2.interaction_value(f1, f2)
             x.append(x_curr)
             y.append(y_curr)
-- 
2.43.0


From 6fa14c0ecd4e5917c698e21dd29a9cd4ad02cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 13/46] fix: heatmap does not fail for features without
 importance (never used in a forest)

---
 artemis/visualizer/_visualizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index e46d4ee..f77b5cd 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -591,6 +591,7 @@ class Visualizer:
                         ]["Importance"].values[0],
                 }
                 for f in all_features
+                if f in feature_importance["Feature"].values
             ]
         )
         return var_imp_diag
-- 
2.43.0


From 4a6b2d52a58958ed6681b8a3bd76f497871ccc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 14/46] fix: heatmap diagonal shows feature importance also if
 a feature is paired with itself

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index f77b5cd..53db245 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -188,7 +188,7 @@ class Visualizer:
             var_imp_diag = self._feature_importance_diag(
                 ovo, feature_importance, _f1_name=_f1_name, _f2_name=_f2_name
             )
-            ovo_all_pairs = pd.concat([ovo_all_pairs, var_imp_diag])
+            ovo_all_pairs = pd.concat([var_imp_diag, ovo_all_pairs])
 
         fig = None
         if ax is not None:
-- 
2.43.0


From 360cb657c6fa25dda2505d6f05157d1887db4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 15/46] fix: interaction graph does not fail for features
 without any interaction

---
 artemis/visualizer/_visualizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 53db245..edf5084 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -282,6 +282,8 @@ class Visualizer:
             edge_attr=self.method,
             create_using=nx.DiGraph if _directed else nx.Graph,
         )
+        if feature_importance is not None:
+            G.add_nodes_from(feature_importance["Feature"])
         pos = nx.circular_layout(G)
 
         nx.draw(
-- 
2.43.0


From 933f3de0c8128635dc3280eea2014c5a1d002976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 16/46] fix: interaction graph does not hide the weakest
 relevant (or the only) interaction

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index edf5084..fa01f2f 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -611,8 +611,8 @@ class Visualizer:
 
     def _scale_to_unit_interval(self, ovo_copy: pd.DataFrame):
         vals = ovo_copy[self.method]
-        m, M = np.min(vals), np.max(vals)
-        ovo_copy.loc[:, self.method] = (vals - m) / (M - m)
+        M = np.max(vals)
+        ovo_copy.loc[:, self.method] = vals / M if M > 0 else 0.0
 
     def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-- 
2.43.0


From 0a2ddcbdd891f852a50f56de7911cda1032e87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 17/46] fix: summary plot respects the order of interactions
 and importance of the method

---
 artemis/visualizer/_visualizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index fa01f2f..324fe2a 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -51,6 +51,7 @@ class Visualizer:
                 title=title,
                 figsize=figsize,
                 interactions_ascending_order=interactions_ascending_order,
+                importance_ascending_order=importance_ascending_order,
                 _f1_name=_feature_column_name_1,
                 _f2_name=_feature_column_name_2,
                 _directed=_directed,
@@ -407,6 +408,7 @@ class Visualizer:
             title: str = "default",
             figsize: Tuple[float, float] = (8, 6),
             interactions_ascending_order: bool = False,
+            importance_ascending_order: bool = False,
             _f1_name: str = "Feature 1",
             _f2_name: str = "Feature 2",
             _directed: bool = False,
@@ -427,6 +429,7 @@ class Visualizer:
             ovo,
             feature_importance,
             interactions_ascending_order=interactions_ascending_order,
+            importance_ascending_order=importance_ascending_order,
             ax=ax1,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
@@ -436,6 +439,7 @@ class Visualizer:
         self.plot_interaction_graph(
             ovo,
             feature_importance,
+            interactions_ascending_order=interactions_ascending_order,
             ax=ax2,
             _f1_name=_f1_name,
             _f2_name=_f2_name,
-- 
2.43.0


From 675725f2697b72ee407ffbcba279fe071892a511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 18/46] fix: both bar charts of the summary plot start with the
 strongest interaction

---
 artemis/visualizer/_visualizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 324fe2a..9cbfa3e 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -367,7 +367,7 @@ class Visualizer:
             grid=True,
             ax=ax,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_barchart_ova(
             self,
@@ -398,7 +398,7 @@ class Visualizer:
             ax=ax,
             grid=True,
         )
-        plt.gca().invert_yaxis()
+        ax.invert_yaxis()
 
     def plot_summary(
             self,
-- 
2.43.0


From 93cb1b16d41657bc8b116df5bbcaca7a6f7e740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 19/46] fix: one vs all bar chart uses the requested title

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 9cbfa3e..96b78b7 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -70,7 +70,7 @@ class Visualizer:
                 **kwargs,
             )
         elif vis_type == VisualizationType.BAR_CHART_OVA:
-            self.plot_barchart_ova(ova, figsize=figsize, **kwargs)
+            self.plot_barchart_ova(ova, title=title, figsize=figsize, **kwargs)
         elif vis_type == VisualizationType.HEATMAP:
             self.plot_heatmap(
                 ovo,
-- 
2.43.0


From b908c8d4243f16986e6b84cc25bff3aaf3d218f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 20/46] fix: split score of models without nested splits has no
 interactions instead of failing

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index 0b4d0a7..ab3ad58 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -206,7 +206,7 @@ def _calculate_full_result(
         .progress_apply(_prepare_stats, package=model_package)
         .reset_index(drop=True)
     )
-    return full_result[_COLUMNS_TO_CHOSE]
+    return full_result.reindex(columns=_COLUMNS_TO_CHOSE)
 
 
 def _prepare_stats(tree: pd.DataFrame, package: str):
-- 
2.43.0


From 2fcb34b9351322887a4214d6bb2f0e1c10e905d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 21/46] fix: depth based split score importance starts with the
 most important feature

---
 artemis/importance_methods/model_specific/_split_score.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index f88e901..2d15147 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -75,8 +75,8 @@ class SplitScoreImportance(FeatureImportanceMethod):
         self.full_result = _calculate_all_feature_importance(
             trees_df, features, selected_metric
         )
-        self.feature_importance = _select_metric(self.full_result, selected_metric)
         self.selected_metric = selected_metric
+        self.feature_importance = _select_metric(self.full_result, selected_metric, self.importance_ascending_order)
 
         return self.feature_importance
 
@@ -141,12 +141,12 @@ def _calculate_mean_weighted_depth_metric(trees_df: pd.DataFrame):
     )
 
 
-def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str):
+def _select_metric(importance_full_result: pd.DataFrame, selected_metric: str, ascending_order: bool):
     feature_importance = importance_full_result[
         ["split_feature", selected_metric]
     ].rename(columns={"split_feature": "Feature", selected_metric: "Importance"})
     return feature_importance.sort_values(
-        by="Importance", ascending=False, ignore_index=True
+        by="Importance", ascending=ascending_order, ignore_index=True
     )
 
 
-- 
2.43.0


From d714e4619cd5e5ad079f9043ef00ba5a68beaffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 22/46] fix: root frequency of features never used in a root is
 0

---
 artemis/importance_methods/model_specific/_split_score.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index 2d15147..e18a95d 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -101,6 +101,7 @@ def _calculate_all_feature_importance(
     mean_weighted_depth = _calculate_mean_weighted_depth_metric(trees_df)
 
     importance_full_result = basic_metrics.join(root_metrics)
+    importance_full_result[root_metrics.columns] = importance_full_result[root_metrics.columns].fillna(0)
     importance_full_result = pd.concat(
         [importance_full_result, mean_weighted_depth], axis=1
     ).reset_index()
-- 
2.43.0


From 7c47cee641715997d5b4d05c00a148fe4493ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 23/46] fix: additivity index of a constant model is 1, not a
 ratio of rounding noise

---
 artemis/additivity/_additivity_meter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index 1863f5a..ee1bc6e 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -114,4 +114,9 @@ class AdditivityMeter:
         self.full_result["centered_prediction"] = self.preds - np.mean(self.preds)
 
         sum_first_order_effects = self.full_result.values[:, :-1].sum(axis=1) + np.mean(self.preds)
+        residuals = self.preds - sum_first_order_effects
+        # constant predictions leave only rounding noise in both sums, such a model is additive
+        noise_level = 1e-12 * np.max(np.abs(self.preds))
+        if max(np.max(np.abs(residuals)), np.max(np.abs(self.full_result["centered_prediction"]))) <= noise_level:
+            return 1.0
         return 1-np.sum((self.preds - sum_first_order_effects)**2) / np.sum((self.full_result["centered_prediction"])**2)
-- 
2.43.0


From 04093f09dc0d7729052a6b6ca4e17cc786efd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:10 +0000
Subject: [PATCH 24/46] fix: zenplot works for fewer pairs than its length,
 profile plots report a method not fitted

---
 .../partial_dependence_based/_pdp.py              | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 6a29057..5a3bc24 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -10,6 +10,7 @@ import seaborn as sns
 from artemis.importance_methods.model_agnostic import PartialDependenceBasedImportance
 from artemis.interactions_methods._method import FeatureInteractionMethod
 from artemis._utilities.domain import ProgressInfoLog, VisualizationType
+from artemis._utilities.exceptions import MethodNotFittedException
 from artemis._utilities.ops import get_predict_function, sample_if_not_none, all_if_none
 from artemis._utilities.pd_calculator import PartialDependenceCalculator
 from artemis._utilities.zenplot import (
@@ -132,6 +133,9 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         figsize : (float, float) 
             Size of plot. Default is (8, 6).
         """
+        if self.pd_calculator is None:
+            raise MethodNotFittedException(self.method)
+
         plt.figure(figsize=figsize)
         if feature2 is not None:
             pair_key = self.pd_calculator._get_pair_key((feature1, feature2))
@@ -197,6 +201,10 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
         ----------
         - https://www.jstatsoft.org/article/view/v095i04
         """
+        if self.ovo is None:
+            raise MethodNotFittedException(self.method)
+
+        zenpath_length = min(zenpath_length, len(self.ovo))
         fig = plt.figure(figsize=figsize)
         to_vis = self.ovo.copy().iloc[:(zenpath_length + 1)]
         min_pd, max_pd = get_pd_dict(self.pd_calculator, to_vis)
@@ -274,6 +282,13 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 ax.set_title(pair[0], size=10)
                 id_col += 1
 
+            if to_vis.empty:
+                if id_col > id_row:
+                    ax.set_ylabel(pair[1])
+                else:
+                    ax.set_title(pair[1], size=10)
+                plt.tight_layout()
+                break
             idx, continued = find_next_pair_index(to_vis, pair[1])
             if continued:
                 pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
-- 
2.43.0


From a4ca7a1e236b8c199ffc099b3d5d30e3a7e71ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:11 +0000
Subject: [PATCH 25/46] fix: interaction graph draws every relevant interaction
 of methods with ascending order

---
 artemis/visualizer/_visualizer.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 96b78b7..584f5a6 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -325,12 +325,12 @@ class Visualizer:
     def _interactions_to_edge_widths(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame,
                                      max_width: float):
 
+        # the smaller the stronger for ascending order
+        self._reverse_scale_for_ascending(interactions_ascending_order, ovo_copy)
+
         # standardize edge widths by scaling interactions to [0,1] interval
         self._scale_to_unit_interval(ovo_copy)
 
-        # a => (1 - a) for ascending order
-        self._reverse_scale_for_ascending(interactions_ascending_order, ovo_copy)
-
         # map to width
         self._map_to_width(max_width, ovo_copy)
 
@@ -607,9 +607,9 @@ class Visualizer:
                                            threshold_relevant_interaction: float,
                                            ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] > threshold_relevant_interaction, self.method] = np.nan
         else:
-            ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = 0
+            ovo_copy.loc[ovo_copy[self.method] < threshold_relevant_interaction, self.method] = np.nan
 
         return ovo_copy.copy()
 
@@ -620,11 +620,10 @@ class Visualizer:
 
     def _reverse_scale_for_ascending(self, interactions_ascending_order: bool, ovo_copy: pd.DataFrame):
         if interactions_ascending_order:
-            ovo_copy.loc[ovo_copy[self.method] > 0, self.method] = 1 - ovo_copy.loc[
-                ovo_copy[self.method] > 0, self.method]
+            ovo_copy[self.method] = np.max(ovo_copy[self.method]) + 1 - ovo_copy[self.method]
 
     def _map_to_width(self, max_width: float, ovo_copy: pd.DataFrame):
-        ovo_copy[self.method] = ovo_copy[self.method] * max_width
+        ovo_copy[self.method] = (ovo_copy[self.method] * max_width).fillna(0)  # insignificant ones are not drawn
 
     @staticmethod
     def order_heatmap(matrix: pd.DataFrame, asc_order: bool) -> pd.DataFrame:
-- 
2.43.0


From 5e7bdd1f2817566396a66c66fca9f36f9dddb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:37 +0000
Subject: [PATCH 26/46] fix: lollipop plot includes the last tree and the same
 trees for roots and other nodes

---
 artemis/visualizer/_visualizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 584f5a6..c0956ae 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -501,8 +501,9 @@ class Visualizer:
         full_result_copy["pair_name"] = (
                 full_result_copy["parent_name"] + ":" + full_result_copy["split_feature"]
         )
+        n_trees = full_result_copy["tree"].max() + 1
         roots = full_result_copy.loc[full_result_copy["depth"] == 0].copy()
-        roots = roots[roots["tree"] < max_trees * roots["tree"].max()]
+        roots = roots[roots["tree"] < max_trees * n_trees]
         nodes = full_result_copy.loc[
             (full_result_copy["leaf"] == False)
             & (full_result_copy["depth"] > 0)
@@ -511,7 +512,7 @@ class Visualizer:
         nodes.loc[full_result_copy["interaction"] == True, "split_feature"] = nodes.loc[
             full_result_copy["interaction"] == True, "pair_name"
         ]
-        nodes = nodes[nodes["tree"] < max_trees * nodes["tree"].max()]
+        nodes = nodes[nodes["tree"] < max_trees * n_trees]
 
         ax.set_axisbelow(True)
         plt.xscale(scale)
-- 
2.43.0


From fff755cf481722c7bebc50fd9f2717358e9c9c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:34 +0000
Subject: [PATCH 27/46] fix: interaction graph does not fail for forests with
 unused features

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index c0956ae..0718b80 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -267,7 +267,7 @@ class Visualizer:
             fig, ax = plt.subplots(figsize=figsize)
             plt.title(title)
 
-        ovo_copy = ovo.copy()
+        ovo_copy = ovo.dropna(subset=[self.method]).copy()  # pairs with features that are not used by the model
 
         # filter out non-significant interactions according to the order
         ovo_no_sig_inter = self._filter_insignificant_interactions(interactions_ascending_order,
-- 
2.43.0


From 179279fdfc3552f5f45f99d3c264dd4fbaea0e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:41 +0000
Subject: [PATCH 28/46] fix: zenplot color scale ignores unobserved
 combinations

---
 artemis/_utilities/zenplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/zenplot.py b/artemis/_utilities/zenplot.py
index 1be7bde..1ada0e6 100644
--- a/artemis/_utilities/zenplot.py
+++ b/artemis/_utilities/zenplot.py
@@ -33,6 +33,6 @@ def get_pd_dict(pd_calculator, to_vis):
         pair = (to_vis.iloc[i, 0], to_vis.iloc[i, 1])
         pair_key = pd_calculator._get_pair_key(pair)
         pair_values = pd_calculator.pd_pairs[pair_key].copy()
-        max_pd = max(np.max(pair_values["pd_values"]), max_pd)
-        min_pd = min(np.min(pair_values["pd_values"]), min_pd)
+        max_pd = max(np.nanmax(pair_values["pd_values"]), max_pd)
+        min_pd = min(np.nanmin(pair_values["pd_values"]), min_pd)
     return min_pd, max_pd
-- 
2.43.0


From d042a0fd9fa7b653e9306ca6dfb6d365f82ce235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:03 +0000
Subject: [PATCH 29/46] fix: last panel of a zenplot is labelled with the
 feature it shows

---
 .../model_agnostic/partial_dependence_based/_pdp.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 5a3bc24..09aa0eb 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -291,12 +291,12 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 break
             idx, continued = find_next_pair_index(to_vis, pair[1])
             if continued:
-                pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
                 if zenpath_length - 1 == i:
                     if id_col > id_row:
                         ax.set_ylabel(pair[1])
                     else:
                         ax.set_title(pair[1], size=10)
+                pair = pair[1], get_second_feature(pair[1], to_vis.loc[idx])
             else:
                 if id_col > id_row:
                     ax.set_ylabel(pair[1])
-- 
2.43.0


From 8b78cbd3ebb9cd7b6ef37eefc628222c461a9d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:08 +0000
Subject: [PATCH 30/46] fix: comparison plot does not consume the global random
 generator

---
 artemis/_utilities/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/_utilities/ops.py b/artemis/_utilities/ops.py
index 97d2b89..7dfe14f 100644
--- a/artemis/_utilities/ops.py
+++ b/artemis/_utilities/ops.py
@@ -56,7 +56,7 @@ def split_features_num_cat(X, features):
     
     
 def point_left_side_circle(x, y, r):
-    alpha = math.pi * random.random() + math.pi / 2
+    alpha = math.pi * random.Random().random() + math.pi / 2  # own generator, the global one belongs to the user
     return r * math.cos(alpha) + x, r * math.sin(alpha) + y
 
 
-- 
2.43.0


From c699c2f4a3720fde92392d10becb921a823971fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:36 +0000
Subject: [PATCH 31/46] fix: partial dependence calculator keeps its own copy
 of the data

---
 artemis/_utilities/pd_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5192233..5eb435e 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -12,7 +12,7 @@ class PartialDependenceCalculator:
     def __init__(self, model, X: pd.DataFrame, predict_function: Optional[Callable] = None, batchsize: int = 2000):
         self.model = model
         self.predict_function = get_predict_function(model, predict_function)
-        self.X = X
+        self.X = X.copy()  # values calculated before must not be taken for those of data modified since
         self.X_len = len(self.X)
         self.batchsize = batchsize
         self.pd_single = {col: 
-- 
2.43.0


From 67cf8493039c05554d952ceb620412dfe1d47fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:16 +0000
Subject: [PATCH 32/46] fix: minimal depth importance of a forest without
 splits is empty

---
 artemis/importance_methods/model_specific/_minimal_depth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_minimal_depth.py b/artemis/importance_methods/model_specific/_minimal_depth.py
index f6911ea..6d08714 100644
--- a/artemis/importance_methods/model_specific/_minimal_depth.py
+++ b/artemis/importance_methods/model_specific/_minimal_depth.py
@@ -70,7 +70,7 @@ class MinimalDepthImportance(FeatureImportanceMethod):
             )
 
         self.feature_importance = pd.DataFrame.from_records(
-            records_result
+            records_result, columns=["Feature", "Importance"]
         ).sort_values(by="Importance", ignore_index=True)
 
         return self.feature_importance
-- 
2.43.0


From 9975c7ee2909f1fbdb112ddf3ab15cd4735176c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 33/46] fix: partial dependence queries keep the column types
 of the data

---
 artemis/_utilities/pd_calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5eb435e..25022d4 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -135,14 +135,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = self.predict_function(self.model, X_full)
+        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -150,7 +150,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full)
+        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
-- 
2.43.0


From 3091185ca850c790d52f21d614f407243877a83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:30 +0000
Subject: [PATCH 34/46] fix: permutation importance keeps categorical features
 categorical

---
 .../model_agnostic/_permutational_importance.py                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_agnostic/_permutational_importance.py b/artemis/importance_methods/model_agnostic/_permutational_importance.py
index f252286..80c0c8e 100644
--- a/artemis/importance_methods/model_agnostic/_permutational_importance.py
+++ b/artemis/importance_methods/model_agnostic/_permutational_importance.py
@@ -128,7 +128,7 @@ def _corrupted_scores(
         range(n_repeat), disable=not show_progress, desc=ProgressInfoLog.CALC_VAR_IMP
     ):
         for feature in features:
-            X_copy_permuted[feature] = random_generator.permutation(X_copy_permuted[feature])
+            X_copy_permuted[feature] = X[feature].values[random_generator.permutation(len(X))]
             corrupted_scores[feature].append(
                 metric.calculate(y, model.predict(X_copy_permuted))
             )
-- 
2.43.0


From 5d594c5ea26f8b1db9685a5383faf9e689e6b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:32 +0000
Subject: [PATCH 35/46] fix: bars of the conditional chart have the color of
 their number of occurrences

---
 artemis/visualizer/_visualizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/visualizer/_visualizer.py b/artemis/visualizer/_visualizer.py
index 0718b80..e818480 100644
--- a/artemis/visualizer/_visualizer.py
+++ b/artemis/visualizer/_visualizer.py
@@ -139,7 +139,7 @@ class Visualizer:
         new_cmap = colors.LinearSegmentedColormap.from_list("new_cmap", cmap(np.linspace(0.5, 1, 100)))
         sm = plt.cm.ScalarMappable(cmap=new_cmap, norm=norm)
         ax = sns.barplot(df_to_plot, x="Interaction", y=self.method, hue="n_occurences",
-                         palette=sm.to_rgba(np.flip(df_to_plot["n_occurences"])), dodge=False)
+                         palette=sm.to_rgba(np.unique(df_to_plot["n_occurences"])), dodge=False)
         plt.vlines(x=df_to_plot["Interaction"], ymin=df_to_plot[self.method],
                    ymax=df_to_plot["unconditional_importance"], color=color, alpha=0.5)
         plt.scatter(df_to_plot["Interaction"], y=df_to_plot["unconditional_importance"], color=color, marker="o")
-- 
2.43.0


From 1f6e6ff25d869beb077b74f07fbae9a214dc8e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:29 +0000
Subject: [PATCH 36/46] fix: metrics compare targets and predictions row by row
 in any container

---
 artemis/_utilities/performance_metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/performance_metrics.py b/artemis/_utilities/performance_metrics.py
index a3b2dd8..4967196 100644
--- a/artemis/_utilities/performance_metrics.py
+++ b/artemis/_utilities/performance_metrics.py
@@ -33,7 +33,8 @@ class MSE(Metric):
         super().__init__(ProblemType.REGRESSION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.square(y_hat - y_true).mean()
+        # row by row, whatever the containers; small integer types would overflow
+        return np.square(np.ravel(y_hat).astype(float) - np.ravel(y_true).astype(float)).mean()
 
 
 class Accuracy(Metric):
@@ -42,4 +43,4 @@ class Accuracy(Metric):
         super().__init__(ProblemType.CLASSIFICATION)
 
     def calculate(self, y_true: np.array, y_hat: np.array) -> float:
-        return np.equal(y_true, y_hat).mean()
+        return (np.ravel(y_true) == np.ravel(y_hat)).mean()
-- 
2.43.0


From c8c11fe1c257153211845ebeae7b19b6d332eece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:29 +0000
Subject: [PATCH 37/46] fix: predictions in a single column or with their own
 index are taken row by row

---
 artemis/_utilities/pd_calculator.py                         | 6 +++---
 artemis/additivity/_additivity_meter.py                     | 2 +-
 .../partial_dependence_based/_friedman_h_statistic.py       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 25022d4..5b797cc 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -135,14 +135,14 @@ class PartialDependenceCalculator:
             self.fill_pd_minus_single(range_dict, X_full)
 
     def fill_pd_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
+        y = np.ravel(self.predict_function(self.model, X_full.astype(self.X.dtypes)))
         for var_name, var_val in range_dict.keys():
             start, end = range_dict[(var_name, var_val)]
             value_index = get_index(self.pd_single[var_name]["f_values"], var_val)
             self.pd_single[var_name]["pd_values"][value_index] = np.mean(y[start:end])
 
     def fill_pd_pairs(self, range_dict, X_full):
-        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
+        y = np.ravel(self.predict_function(self.model, X_full.astype(self.X.dtypes)))
         for var_name1, var_name2, var_val1, var_val2 in range_dict.keys():
             start, end = range_dict[(var_name1, var_name2, var_val1, var_val2)]
             value_index1 = get_index(self.pd_pairs[(var_name1, var_name2)]["f1_values"], var_val1)
@@ -150,7 +150,7 @@ class PartialDependenceCalculator:
             self.pd_pairs[(var_name1, var_name2)]["pd_values"][value_index1, value_index2] = np.mean(y[start:end])
 
     def fill_pd_minus_single(self, range_dict, X_full): 
-        y = self.predict_function(self.model, X_full.astype(self.X.dtypes))
+        y = np.ravel(self.predict_function(self.model, X_full.astype(self.X.dtypes)))
         for var_name, row_id in range_dict.keys():
             start, end = range_dict[(var_name, row_id)]
             self.pd_minus_single[var_name]["pd_values"][row_id] = np.mean(y[start:end])
diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index ee1bc6e..c43dd8a 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -106,7 +106,7 @@ class AdditivityMeter:
             show_progress=show_progress, desc=ProgressInfoLog.CALC_ADD
         )
 
-        self.preds = self.predict_function(self.model, self.X_sampled)
+        self.preds = np.ravel(self.predict_function(self.model, self.X_sampled))
         for var in self.X_sampled.columns:
             self.full_result[var] = self.pd_calculator.get_pd_single(var, self.X_sampled[var].values) - np.mean(self.preds)
 
diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
index 65cf1d2..59d33eb 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_friedman_h_statistic.py
@@ -190,7 +190,7 @@ class FriedmanHStatisticMethod(PartialDependenceBasedMethod):
 
     def _calculate_ova_interactions_from_pd(self, show_progress: bool) -> pd.DataFrame:
         self.pd_calculator.calculate_pd_minus_single(self.features_included, show_progress=show_progress)
-        preds = self.predict_function(self.model, self.X_sampled)
+        preds = np.ravel(self.predict_function(self.model, self.X_sampled))
         value_minus_single = []
         for feature in self.features_included:
             pd_f = self.pd_calculator.get_pd_single(feature, feature_values=self.X_sampled[feature].values)
-- 
2.43.0


From 49065a8482dfa9820f7f2e52e0298a4ed7d2b36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:29 +0000
Subject: [PATCH 38/46] fix: splits of a feature named Leaf are no leaves

---
 artemis/_utilities/_handler.py                            | 2 +-
 artemis/importance_methods/model_specific/_split_score.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/_utilities/_handler.py b/artemis/_utilities/_handler.py
index 16e92d3..952c9e9 100644
--- a/artemis/_utilities/_handler.py
+++ b/artemis/_utilities/_handler.py
@@ -42,7 +42,7 @@ def _get_unified_trees_df(model, package: str) -> pd.DataFrame:
         trees_df = trees_df.rename(columns=_XGBOOST_COL_DICT).drop(
             columns=["Split", "Missing", "Category"]
         )
-        trees_df["leaf"] = trees_df["split_feature"] == "Leaf"
+        trees_df["leaf"] = trees_df["left_child"].isna()  # "Leaf" may be the name of a feature
         trees_df["depth"] = None
 
     elif package == "lightgbm":
diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index e18a95d..a7375f8 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -91,10 +91,9 @@ def _calculate_all_feature_importance(
         features: Optional[List[str]] = None,
         selected_metric: str = SplitScoreImportanceMetric.SUM_GAIN,
 ):
+    trees_df = trees_df.loc[trees_df["leaf"] == False]
     if features is not None:
         trees_df = trees_df.loc[trees_df["split_feature"].isin(features)]
-    else:
-        trees_df = trees_df.loc[trees_df["split_feature"] != "Leaf"]
 
     basic_metrics = _calculate_basic_metrics(trees_df)
     root_metrics = _calculate_root_metrics(trees_df)
-- 
2.43.0


From af1c6ae059f42b2e311dfdbf752135979e1e1868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:30 +0000
Subject: [PATCH 39/46] fix: complements of a feature keep large integers exact

---
 artemis/_utilities/pd_calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/artemis/_utilities/pd_calculator.py b/artemis/_utilities/pd_calculator.py
index 5b797cc..4455820 100644
--- a/artemis/_utilities/pd_calculator.py
+++ b/artemis/_utilities/pd_calculator.py
@@ -120,8 +120,8 @@ class PartialDependenceCalculator:
         X_full = pd.DataFrame()
         for feature in tqdm(features, desc=desc, disable=not show_progress):
             if np.isnan(self.pd_minus_single[feature]["pd_values"]).any(): 
-                for i, row in self.X.copy().reset_index(drop=True).iterrows():
-                    change_dict = {other_feature: row[other_feature] for other_feature in self.X.columns if other_feature != feature}
+                for i in range(self.X_len):  # column by column, as rows of mixed types would lose digits of large integers
+                    change_dict = {other_feature: self.X[other_feature].iloc[i] for other_feature in self.X.columns if other_feature != feature}
                     X_changed = self.X.copy().assign(**change_dict)
                     range_dict[(feature, i)] = (current_len, current_len+self.X_len)
                     current_len += self.X_len
-- 
2.43.0


From 70db745d6d7a32033626d218ae3770dfdceacfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:31 +0000
Subject: [PATCH 40/46] fix: a refused fit of the split score method keeps the
 order of its results

---
 .../model_specific/gb_trees/_split_score.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index ab3ad58..b34e369 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -87,8 +87,8 @@ class SplitScoreMethod(FeatureInteractionMethod):
         """
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
-        self.metric = interaction_selected_metric
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
+        self.metric = interaction_selected_metric
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
         )
-- 
2.43.0


From bef975fbbed41a829a5a9db5d30ec5ec292314b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 41/46] fix: performance, minimal depth and split score methods
 keep the explained model, as documented

---
 .../model_agnostic/performance_based/_sejong_oh.py              | 1 +
 .../model_specific/gb_trees/_split_score.py                     | 2 ++
 .../model_specific/random_forest/_conditional_minimal_depth.py  | 1 +
 3 files changed, 4 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 9d9c0b3..311eba8 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -97,6 +97,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         show_progress : bool
             If True, progress bar will be shown. Default is False.
         """
+        self.model = model
         self.X_sampled, self.y_sampled = sample_both_if_not_none(self._random_generator, X, y_true, n)
         self.features_included = all_if_none(X.columns, features)
         self.pairs = list(combinations(self.features_included, 2))
diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index b34e369..fc05717 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -85,9 +85,11 @@ class SplitScoreMethod(FeatureInteractionMethod):
             Whether to return only pair of sequential features that fulfill the definition of interaction 
             (with better split score for child feature).
         """
+        explained_model = model
         if not isinstance(model, GBTreesHandler):
             model = GBTreesHandler(model)
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
+        self.model = explained_model
         self.metric = interaction_selected_metric
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
diff --git a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
index d93c05c..0a79202 100644
--- a/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
+++ b/artemis/interactions_methods/model_specific/random_forest/_conditional_minimal_depth.py
@@ -79,6 +79,7 @@ class ConditionalMinimalDepthMethod(FeatureInteractionMethod):
         show_progress : bool
             If True, progress bar will be shown. Default is False.
         """
+        self.model = model
         self.features_included = model.feature_names_in_.tolist()
         self.pairs = list(combinations(self.features_included, 2))
         column_dict = _make_column_dict(model.feature_names_in_)
-- 
2.43.0


From bc71c7c4b710235adf8875fe6688ed80b986f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 42/46] fix: split score method lists its features and pairs,
 as documented

---
 .../model_specific/gb_trees/_split_score.py                    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
index fc05717..686fe72 100644
--- a/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
+++ b/artemis/interactions_methods/model_specific/gb_trees/_split_score.py
@@ -1,3 +1,4 @@
+from itertools import combinations
 from typing import Tuple
 
 import pandas as pd
@@ -91,6 +92,8 @@ class SplitScoreMethod(FeatureInteractionMethod):
         _check_metrics_with_available_info(model.package, interaction_selected_metric, importance_selected_metric)
         self.model = explained_model
         self.metric = interaction_selected_metric
+        self.features_included = model.trees_df.loc[~model.trees_df["leaf"], "split_feature"].unique().tolist()
+        self.pairs = list(combinations(self.features_included, 2))
         self.full_result = _calculate_full_result(
             model.trees_df, model.package, show_progress
         )
-- 
2.43.0


From 1d12f4f6f4d93b0084af110887befba0b5710095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 43/46] fix: partial dependence based methods have the
 documented attribute batchsize

---
 .../model_agnostic/partial_dependence_based/_pdp.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
index 09aa0eb..d6f85d2 100644
--- a/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
+++ b/artemis/interactions_methods/model_agnostic/partial_dependence_based/_pdp.py
@@ -25,6 +25,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
     def __init__(self, method: str, random_state: Optional[int] = None):
         super().__init__(method, random_state=random_state)
         self.pd_calculator = None
+        self.batchsize = None
 
     @property
     def _interactions_ascending_order(self):
@@ -98,6 +99,7 @@ class PartialDependenceBasedMethod(FeatureInteractionMethod):
                 )
             self.pd_calculator = pd_calculator
 
+        self.batchsize = self.pd_calculator.batchsize
         self.ovo = self._calculate_ovo_interactions_from_pd(show_progress=show_progress)
 
         self._feature_importance_obj = PartialDependenceBasedImportance()
-- 
2.43.0


From 4ca0d95a81789bb700f9bc601aed47a53f07f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 44/46] fix: performance based method has the documented
 attribute random_state

---
 .../model_agnostic/performance_based/_sejong_oh.py               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
index 311eba8..c019f16 100644
--- a/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
+++ b/artemis/interactions_methods/model_agnostic/performance_based/_sejong_oh.py
@@ -58,6 +58,7 @@ class SejongOhMethod(FeatureInteractionMethod):
         """
         super().__init__(InteractionMethod.PERFORMANCE_BASED, random_state)
         self.metric = metric
+        self.random_state = random_state
         self.y_sampled = None
 
     @property
-- 
2.43.0


From 46fcf273ef0b281d3dbd6fc546b57c0cf5586d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:39 +0000
Subject: [PATCH 45/46] fix: unfitted additivity meter has the documented
 attributes

---
 artemis/additivity/_additivity_meter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artemis/additivity/_additivity_meter.py b/artemis/additivity/_additivity_meter.py
index c43dd8a..c375082 100644
--- a/artemis/additivity/_additivity_meter.py
+++ b/artemis/additivity/_additivity_meter.py
@@ -31,11 +31,10 @@ class AdditivityMeter:
         self._random_generator = np.random.default_rng(random_state)
         self.additivity_index = None
         self.full_result = None
-        self.pred = None
+        self.preds = None
         self.model = None
-        self.X_smapled = None
+        self.X_sampled = None
         self.pd_calculator = None
-        self
 
     def fit(
         self,
-- 
2.43.0


From eb154554709b7aeecbf351e09ec563072a73adab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:13 +0000
Subject: [PATCH 46/46] fix: split score importance refuses cover metrics for
 models without cover

---
 artemis/importance_methods/model_specific/_split_score.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/artemis/importance_methods/model_specific/_split_score.py b/artemis/importance_methods/model_specific/_split_score.py
index a7375f8..5dd27db 100644
--- a/artemis/importance_methods/model_specific/_split_score.py
+++ b/artemis/importance_methods/model_specific/_split_score.py
@@ -6,7 +6,8 @@ from tqdm import tqdm
 
 from artemis.importance_methods._method import FeatureImportanceMethod
 from artemis._utilities.domain import ImportanceMethod
-from artemis._utilities.split_score_metrics import SplitScoreImportanceMetric
+from artemis._utilities.exceptions import MetricNotSupportedException
+from artemis._utilities.split_score_metrics import SplitScoreImportanceMetric, _LGBM_UNSUPPORTED_METRICS
 
 
 class SplitScoreImportance(FeatureImportanceMethod):
@@ -69,6 +70,8 @@ class SplitScoreImportance(FeatureImportanceMethod):
         """
         if trees_df is None:
             trees_df = model.trees_df
+        if selected_metric in _LGBM_UNSUPPORTED_METRICS and trees_df["cover"].isnull().all():
+            raise MetricNotSupportedException("lightgbm", selected_metric)
 
         if trees_df["depth"].isnull().values.any():
             trees_df = _calculate_depth(trees_df, show_progress)
-- 
2.43.0

