From 2b5acd8574b8af56ca93de6bc0abd8a214b59d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 01/52] fix: never sample a zero-probability choice when the
 cumulative total rounds below the draw

---
 cheval/core.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 7a1a4fc..67f624d 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -31,12 +31,16 @@ def sample_once(p_array: NDArray, r: float) -> int:
     r = max(r, MIN_RANDOM_VALUE)
     cumsum = 0.0
     index = 0
+    last_feasible = 0
     for p in p_array:
         cumsum += p
         if r <= cumsum:
             return index
+        if p > 0:
+            last_feasible = index
         index += 1
-    return len(p_array) - 1
+    # Rounding can leave the total slightly below 1; the draw then belongs to the last choice which is possible at all
+    return last_feasible
 
 
 @njit(nlong(ndouble, ndouble[:]), nogil=True, cache=True)
@@ -74,8 +78,11 @@ def logarithmic_search(r: float, cps: NDArray) -> int:
     cp_at_left = cps[lower_bound]
     if r <= cp_at_left:
         return lower_bound
-    else:
-        return upper_bound
+
+    # Rounding can leave the total slightly below 1; the draw then belongs to the last choice which is possible at all
+    while upper_bound > 0 and r > cps[upper_bound] and cps[upper_bound - 1] == cps[upper_bound]:
+        upper_bound -= 1
+    return upper_bound
 
 
 @njit(void(ndouble[:]), nogil=True, cache=True)
-- 
2.43.0


From ac391d61116fdbfdb36279dcd0377d2582a75199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 02/52] fix: repeated weighted sampling, and seed it outside of
 the parallel section

---
 cheval/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index 67f624d..e48dc61 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -315,19 +315,18 @@ def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
     result = np.zeros((n_rows, n), dtype=np.int64)
 
-    np.random.seed(seed)
     if n <= 1:
-        r_array = np.random.uniform(MIN_RANDOM_VALUE, 1.0, n_rows)
+        r_array = generate_rand_floats_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             r = r_array[i]
             result[i, 0] = simple_sample(weight_row, r)
     else:
-        seed_array = np.random.randint(0, MAX_RANDOM_VALUE, n_rows)
+        seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             weight_row = weights[i, :]
             seed_i = seed_array[i]
-            _, ls = simple_multisample(weight_row, n, seed_i, result[i, :])
+            simple_multisample(weight_row, n, seed_i, result[i, :])
     return result
 
 
-- 
2.43.0


From 5cdbbbec6aa9ec3820f0e72a0b13f4778c81a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 03/52] fix: always report infeasible or overflowing utilities,
 from outside of the parallel loops

---
 cheval/core.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/cheval/core.py b/cheval/core.py
index e48dc61..fafae35 100644
--- a/cheval/core.py
+++ b/cheval/core.py
@@ -310,6 +310,17 @@ def nested_multisample(utilities: NDArray, parents, levels, ls_scales, bottom_fl
 
 # region High level functions
 
+@njit(void(ndouble[:], nbool), nogil=True, cache=True)
+def check_logsums(logsums: NDArray, check_infeasible: bool):
+    """Reports unusable utilities. Must be called outside of any parallel section: exceptions raised inside of a prange
+    loop don't reliably make it out of the loop."""
+    for ls in logsums:
+        if not np.isfinite(ls):
+            raise UtilityBoundsError("Exponentiated utilities exceeded the maximum value (Logsum is not finite)")
+        if check_infeasible and ls <= 0:
+            raise UtilityBoundsError("Utilities all exceeded minimum value (Logsum == 0.0)")
+
+
 @njit(nlong[:, :](ndouble[:, :], nlong, nlong), parallel=True, nogil=True, cache=True)
 def worker_weighted_sample(weights: NDArray, n: int, seed: int) -> NDArray:
     n_rows = weights.shape[0]
@@ -345,15 +356,19 @@ def worker_multinomial_sample(utilities: NDArray, n: int, seed: int) -> Tuple[ND
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            result[i, 0], ls = multinomial_sample(utility_row, r)
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)  # Logsums get checked below
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = multinomial_multisample(utility_row, n, seed_i, result[i, :])
+            p_array, ls, _ = multinomial_probabilities(utility_row, False)  # Logsums get checked below
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+
+    check_logsums(ls_array, True)
     return result, ls_array
 
 
@@ -370,11 +385,12 @@ def worker_multinomial_probabilities(utilities: NDArray, check_infeasible: bool)
 
     for i in prange(n_rows):
         utility_row = utilities[i, :]
-        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, check_infeasible)
+        p_array, top_ls, nested_ls = multinomial_probabilities(utility_row, False)  # Logsums get checked below
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 
@@ -394,20 +410,23 @@ def worker_nested_sample(utilities: NDArray, parents, levels, ls_scales, bottom_
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             r = r_array[i]
-            this_result, ls = nested_sample(
-                utility_row, r, parents, levels, ls_scales, bottom_flags, scale_utilities
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False  # Logsums get checked below
             )
-            result[i, 0] = this_result
+            result[i, 0] = sample_once(p_array, r)
             ls_array[i] = ls
     else:
         seed_array = generate_rand_ints_for_parallel(seed, n_rows)
         for i in prange(n_rows):
             utility_row = utilities[i, :]
             seed_i = seed_array[i]
-            _, ls = nested_multisample(
-                utility_row, parents, levels, ls_scales, bottom_flags, n, seed_i, scale_utilities, out=result[i, :]
+            p_array, ls, _ = nested_probabilities(
+                utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False  # Logsums get checked below
             )
+            sample_multi(p_array, n, seed_i, result[i, :])
             ls_array[i] = ls
+
+    check_logsums(ls_array, True)
     return result, ls_array
 
 
@@ -426,12 +445,13 @@ def worker_nested_probabilities(utilities: NDArray, parents, levels, ls_scales,
     for i in prange(n_rows):
         utility_row = utilities[i, :]
         p_array, top_ls, nested_ls = nested_probabilities(
-            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, check_infeasible
+            utility_row, parents, levels, ls_scales, bottom_flags, scale_utilities, False  # Logsums get checked below
         )
         result[i, :] = p_array
         top_ls_array[i] = top_ls
         nested_ls_terms[i, :] = nested_ls
 
+    check_logsums(top_ls_array, check_infeasible)
     return result, top_ls_array, nested_ls_terms
 
 # endregion
-- 
2.43.0


From 19898426de8dc2b1b5a14aa2708015b39cca359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 04/52] fix: running a model no longer accumulates its
 utilities into the partial utilities

---
 cheval/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index a5b50ba..bbba8b7 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -463,7 +463,7 @@ class ChoiceModel(object):
         if self.debug_id:
             debug_label = row_index.get_loc(self.debug_id)
 
-        utilities = to_numpy(self._partial_utilities)
+        utilities = to_numpy(self._partial_utilities).copy()  # Runs must not accumulate into the partial utilities
 
         # Prepare locals, including scalar, vector, and matrix variables that don't need any further processing.
         shared_locals = {NAN_STR: np.nan, OUT_STR: utilities, NEG_INF_STR: NEG_INF_VAL}
-- 
2.43.0


From 904d862a867ec9bf444a4fe71baf73d17b484483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 05/52] fix: discard partial utilities when the decision units
 change

---
 cheval/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cheval/model.py b/cheval/model.py
index bbba8b7..b292540 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -236,6 +236,9 @@ class ChoiceModel(object):
                 continue  # Don't empty symbols that don't depend on the DU.
             symbol.empty()
 
+        # Partial utilities are tied to the previous decision units too
+        self._cached_utils = None
+
         if isinstance(item, pd.Index):
             self._decision_units = item
         else:
-- 
2.43.0


From e5ee32871152b41d12866535be5704d21e41286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 06/52] fix: replacing a choice also removes its old nested
 choices, and a rejected choice removes nothing

---
 cheval/model.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index b292540..afecd88 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -77,17 +77,16 @@ class ChoiceModel(object):
     # region Tree operations
 
     def _create_node(self, name: str, logsum_scale: float, parent: ChoiceNode = None) -> ChoiceNode:
-        expected_namespace = name
-        if parent is None and name in self._all_nodes:
-            old_node = self._all_nodes.pop(name)  # Remove from model dictionary
-            self._top_nodes.remove(old_node)  # Remove from top-level choices
-        elif parent is not None:
-            expected_namespace = parent.full_name + '.' + name
-            if expected_namespace in self._all_nodes:
-                del self._all_nodes[expected_namespace]  # Remove from model dictionary
-
+        # Create the node first, so that the tree is left untouched if the name or logsum scale is not allowed
         level = 1 if parent is None else (parent.level + 1)
         node = ChoiceNode(self, name, parent=parent, logsum_scale=logsum_scale, level=level)
+
+        expected_namespace = node.full_name
+        if expected_namespace in self._all_nodes:
+            old_node = self._all_nodes.pop(expected_namespace)  # Remove from model dictionary
+            self._top_nodes.discard(old_node)  # Remove from top-level choices
+            for full_name in [fn for fn in self._all_nodes if fn.startswith(expected_namespace + '.')]:
+                del self._all_nodes[full_name]  # The old node takes its descendants with it
         self._all_nodes[expected_namespace] = node
 
         return node
-- 
2.43.0


From f09a765595a20dcec5cd9f21a5fc20c49e7453fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 07/52] fix: discard partial utilities when a nested choice is
 added to an existing node

---
 cheval/model.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index afecd88..cd8c934 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -89,6 +89,10 @@ class ChoiceModel(object):
                 del self._all_nodes[full_name]  # The old node takes its descendants with it
         self._all_nodes[expected_namespace] = node
 
+        # Anything cached for the previous tree is not valid anymore
+        self._cached_cols = None
+        self._cached_utils = None
+
         return node
 
     def add_choice(self, name: str, logsum_scale: float = 1.0) -> ChoiceNode:
@@ -107,11 +111,6 @@ class ChoiceModel(object):
         Returns:
             ChoiceNode: The added choice node, which also has an "add_choice" method for constructing nested models.
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         node = self._create_node(name, logsum_scale)
         self._top_nodes.add(node)
         return node
@@ -130,11 +129,6 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
-        if self._cached_cols is not None:
-            self._cached_cols = None
-        if self._cached_utils is not None:
-            self._cached_utils = None
-
         if logsum_scales is None:
             logsum_scales = [1.0 for _ in names]
         retval = {}
-- 
2.43.0


From 1f1c60553554580b63b44dbd36078db447288215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 08/52] fix: add_choices() accepts any iterable, and adds all
 of its choices or none

---
 cheval/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index cd8c934..af95817 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -129,8 +129,11 @@ class ChoiceModel(object):
         Returns:
             dict: Mapping of name: ChoiceNode for the added nodes
         """
-        if logsum_scales is None:
-            logsum_scales = [1.0 for _ in names]
+        names = list(names)  # Could be a single-use iterable
+        logsum_scales = [1.0 for _ in names] if logsum_scales is None else list(logsum_scales)
+        for name, logsum_scale in zip(names, logsum_scales):
+            ChoiceNode(self, name, logsum_scale=logsum_scale)  # Reject the entire batch before changing the tree
+
         retval = {}
         for name, logsum_scale in zip(names, logsum_scales):
             node = self._create_node(name, logsum_scale)
-- 
2.43.0


From d4aeddf31acee6cae455c810fb65850da454282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 09/52] fix: allow_links=False forbids linked tables instead of
 plain ones

---
 cheval/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index 2d5a086..5c18353 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -367,7 +367,7 @@ class TableSymbol(AbstractSymbol):
         for column in self._mandatory_attributes:
             assert column in data, f"Mandatory attribute {column} not found in DataFrame"
 
-        if not self._allow_links and not isinstance(data, LinkedDataFrame):
+        if not self._allow_links and isinstance(data, LinkedDataFrame):
             raise TypeError(f"LinkedDataFrames not allowed for symbol {self._name}")
 
         self._table = data
-- 
2.43.0


From a7c32d60288e03c80409ac6b38a8c2628a103996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 10/52] fix: aggregate over a link which belongs to the
 assigned table itself

---
 cheval/api.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 5c18353..e3c737e 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -382,14 +382,14 @@ class TableSymbol(AbstractSymbol):
             item = self._table
             for item_name in reversed(chain_info.chain):
                 item = item[item_name]
-
-            if chain_info.withfunc:
-                series = getattr(item, chain_info.func)(chain_info.args)
-            else:
-                series = item
         else:
             attribute_name = chain_info.chain[0]
-            series = self._table[attribute_name]
+            item = self._table[attribute_name]
+
+        if chain_info.withfunc:
+            series = getattr(item, chain_info.func)(chain_info.args)
+        else:
+            series = item
 
         vector = convert_series(series, allow_raw=False)
 
-- 
2.43.0


From 1b47e2bc35cc3e2c258843aa0695b07ebfb7cf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 11/52] fix: assign a matrix which needs both of its rows and
 columns to be reindexed

---
 cheval/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/api.py b/cheval/api.py
index e3c737e..d569d1f 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -463,7 +463,10 @@ class MatrixSymbol(AbstractSymbol):
                 else:
                     row_indexer = slice(None)
 
-                matrix[row_indexer, col_indexer] = data
+                if not rows_match and not cols_match:
+                    matrix[np.ix_(row_indexer, col_indexer)] = data
+                else:
+                    matrix[row_indexer, col_indexer] = data
                 self._matrix = matrix
 
         else:
-- 
2.43.0


From ca9016b11f6fb1df90dcb7d680f49462d117f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 12/52] fix: symbols of groups and of rejected expressions
 don't leak into the ungrouped symbols

---
 cheval/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index d569d1f..6c5fb94 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -152,9 +152,9 @@ class ExpressionGroup(object):
         self._subgroups: Dict[Hashable, ExpressionSubGroup] = {}
 
     def append(self, e: str, group: Hashable = None):
-        # Parse the expression and look for invalid syntax and inconsistent usage. self._simple_symbols and
-        # self._chained_symbols are modified in-place during parsing.
-        expr = Expression.parse(e, self._simple_symbols, self._chained_symbols)
+        # Parse the expression and look for invalid syntax and inconsistent usage. The sets of symbols are modified
+        # in-place during parsing, so pass copies to avoid picking up symbols of other groups or rejected expressions.
+        expr = Expression.parse(e, set(self.itersimple()), set(self.iterchained()))
         if group is not None:
             if group not in self._subgroups:
                 subgroup = ExpressionSubGroup(group)
-- 
2.43.0


From 8b2f53c06cb8c495b102d1d613eb7641130b2de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 13/52] fix: preval() only drops symbols which no remaining
 expression uses

---
 cheval/model.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index af95817..ca00bd7 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -647,22 +647,19 @@ class ChoiceModel(object):
         utilities = self._evaluate_utilities(subgroup, n_threads=n_threads, logger=logger)
         self._cached_utils = utilities
 
+        if drop_group:
+            self._expressions.drop_group(group)
+
         if cleanup_scope:
             # Need to get a set of only those symbols unique to this group, using set math
-            all_symbols = set(iter_chain(self.expressions.itersimple(), self.expressions.itersimple()))
-            ungrouped_symbols = set(
-                iter_chain(self._expressions.iterchained(groups=False), self._expressions.itersimple(groups=False)))
+            remaining_symbols = set(iter_chain(self._expressions.itersimple(), self._expressions.iterchained()))
             group_symbols = set(iter_chain(subgroup.iterchained(), subgroup.itersimple()))
-            other_symbols = all_symbols - ungrouped_symbols - group_symbols
 
-            symbols_to_clear = group_symbols - ungrouped_symbols - other_symbols
+            symbols_to_clear = group_symbols - remaining_symbols - RESERVED_WORDS
 
             for name in symbols_to_clear:
                 del self._scope[name]
 
-        if drop_group:
-            self._expressions.drop_group(group)
-
     def copy(self, *, decision_units: bool = True, scope_declared: bool = True, scope_assigned: bool = True,
              expressions: bool = True, utilities: bool = True) -> ChoiceModel:
         """Makes a shallow or deep copy of this ChoiceModel. The tree of choices is always copied.
-- 
2.43.0


From efc5022fdcdee157fbe4c311264383a92ad8fb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 14/52] fix: unary minus applies to variables, attributes, dict
 literals and terms of any kind

---
 cheval/parsing/ast_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index e4eaab4..b0568fd 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -58,7 +58,7 @@ class ExpressionParser(ast.NodeTransformer):
         if isinstance(node.op, ast.Not):
             return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
         elif isinstance(node.op, ast.USub):
-            return node
+            return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
     def visit_boolop(self, node):
-- 
2.43.0


From 5f195187e3250c79716e1b0e1241cac69dcfd118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 15/52] fix: None stands for not-a-number in expressions

---
 cheval/parsing/ast_transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index b0568fd..9a92db1 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -61,6 +61,11 @@ class ExpressionParser(ast.NodeTransformer):
             return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
 
+    @staticmethod
+    def visit_constant(node):
+        # None is parsed as a constant, not as a name
+        return ast.Name(NAN_STR, ast.Load()) if node.value is None else node
+
     def visit_boolop(self, node):
         # Converts 'and' and 'or' into '&' and '|' which NumExpr supports
         # BoolOp objects have a list of values but need to be converted into a tree of BinOps
-- 
2.43.0


From 40a7efbe18bb46c21d64b7df19e7f62974f9c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 16/52] fix: reject identity and membership comparisons, which
 were evaluated to a constant

---
 cheval/parsing/ast_transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 9a92db1..eb2fee2 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -87,6 +87,11 @@ class ExpressionParser(ast.NodeTransformer):
         return left
 
     def visit_compare(self, compare_node: ast.Compare):
+        for op in compare_node.ops:
+            # NumExpr would evaluate these for the entire operands at once, instead of element by element
+            if isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
+                raise UnsupportedSyntaxError(op.__class__.__name__)
+
         # Visit downstream symbols
         new_left = self.visit(compare_node.left)
         new_comparators = [self.visit(node) for node in compare_node.comparators]
-- 
2.43.0


From d299be7f7f768c5fcad964388d63aaf6297c27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 17/52] fix: don't round the constants of dict literals to
 single precision

---
 cheval/parsing/ast_transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index eb2fee2..4d540c7 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -197,9 +197,9 @@ class ExpressionParser(ast.NodeTransformer):
                 if isinstance(val_node, ast.UnaryOp):
                     assert isinstance(val_node.operand, ast.Num)
                     assert isinstance(val_node.op, ast.USub)
-                    new_val = np.float32(-val_node.operand.n)
+                    new_val = np.float64(-val_node.operand.n)
                 elif isinstance(val_node, ast.Num):
-                    new_val = np.float32(val_node.n)
+                    new_val = np.float64(val_node.n)
                 else:
                     raise ValueError()
 
-- 
2.43.0


From 69f4f5057bec05bed75929bf07f995ece3aac778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 18/52] fix: "A._" keys of dict literals leave the value of the
 nest itself alone

---
 cheval/parsing/expressions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cheval/parsing/expressions.py b/cheval/parsing/expressions.py
index a30ed9c..220174a 100644
--- a/cheval/parsing/expressions.py
+++ b/cheval/parsing/expressions.py
@@ -100,8 +100,10 @@ class Expression(object):
                 locs = choice_index.get_loc(tuple(new_key))
                 parent_loc = choice_index.get_loc(tuple(new_key + delta))
 
-                new_array[0, locs] = val
-                new_array[0, parent_loc] = 0
+                selected = np.zeros(len(choice_index), dtype='?')
+                selected[locs] = True
+                selected[parent_loc] = False
+                new_array[0, selected] = val
             else:
                 loc = choice_index.get_loc(tuple(new_key + delta))
                 new_array[0, loc] = val
-- 
2.43.0


From f06bc04a275830c21c37de823c16f4ed4a3bb824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 19/52] fix: text and categorical columns may contain missing
 values, which are empty text

---
 cheval/utils.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index a32c411..3150167 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -20,6 +20,13 @@ def to_numpy(frame_or_series: Union[pd.DataFrame, pd.Series, pd.Index], ignore_c
     return arr
 
 
+def _max_text_length(text: Union[pd.Series, pd.Index]) -> int:
+    lengths = text.str.len()
+    if np.any(pd.isna(lengths)):
+        raise TypeError('Could not get max string length')
+    return max(int(lengths.max()), 1) if len(lengths) > 0 else 1
+
+
 def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
     dtype = s.dtype
 
@@ -39,18 +46,17 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
 
         category_index = categorical.categories
         if category_index.dtype.name == 'object':
-            max_len = category_index.str.len().max()
-            typename = f'S{max_len}'
-        else:
-            typename = category_index.dtype
+            max_len = _max_text_length(category_index)
+            # Missing values have a code of -1, which looks up the empty text at the end
+            lookup = np.append(category_index.to_numpy(dtype=f'S{max_len}'), np.array([b''], dtype=f'S{max_len}'))
+            return lookup[categorical.codes]
 
-        return categorical.astype(typename)
+        return categorical.astype(category_index.dtype)
     elif dtype.name == 'object':
         # Object or text column
         # This is much slower than other dtypes, but it can't be helped. For now, users should just use Categoricals
-        max_length = s.str.len().max()
-        if np.isnan(max_length):
-            raise TypeError('Could not get max string length')
+        s = s.fillna('')  # Missing text is the same as empty text
+        max_length = _max_text_length(s)
 
         return s.to_numpy(dtype=f'S{max_length}') if _USE_TO_NUMPY else s.values.astype(f'S{max_length}')
     elif np.issubdtype(dtype, np.datetime64):
-- 
2.43.0


From 504fcfcabd922993193bd27d48590b7eaa2bd1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 20/52] fix: discrete results of nested models as categories or
 objects

---
 cheval/model.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index ca00bd7..06acb52 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -537,10 +537,19 @@ class ChoiceModel(object):
             if squeeze and n_draws == 1:
                 return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
             return pd.DataFrame(raw_result, index=record_index, columns=column_index)
+
+        choices = self.choices
+        if choices.nlevels > 1:
+            # Nested choices are reported as tuples
+            choices = choices.to_flat_index()
+            if astype == 'category':
+                lookup_table = pd.Categorical.from_codes(np.arange(len(choices)), categories=choices)
+            else:
+                lookup_table = choices.astype(astype)
         elif astype == 'category':
-            lookup_table = pd.Categorical(self.choices)
+            lookup_table = pd.Categorical(choices)
         else:
-            lookup_table = self.choices.astype(astype)
+            lookup_table = choices.astype(astype)
 
         retval = []
         for col in range(n_draws):
-- 
2.43.0


From 29d41925b408c2a9d21c7c95d70d5dfda05946c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 21/52] fix: refreshing the indexer of a link also refreshes
 which rows are missing

---
 cheval/ldf/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 93f39b4..681636c 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -184,6 +184,7 @@ class _LinkMeta:
     def precompute(self):
         """Top-level method to precompute the indexer"""
         self._make_indexer(*self._get_indexers())
+        self._missing_indices = None  # Not valid anymore if the indexer got refreshed
 
     def copy_meta(self) -> _LinkMeta:
         copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
-- 
2.43.0


From 1f719a4f0b37f2daf72754e104fadd45301f4194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 22/52] fix: report a different number of levels as a
 mis-specified linkage

---
 cheval/ldf/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 681636c..3fdd103 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -107,7 +107,8 @@ class _LinkMeta:
         self_meta = _IndexMeta(self_labels, self_from_row_labels)
         other_meta = _IndexMeta(other_labels, other_from_row_labels)
 
-        assert self_meta.nlevels(owner) == other_meta.nlevels(other)
+        if self_meta.nlevels(owner) != other_meta.nlevels(other):
+            raise LinkageSpecificationError('The same number of levels must be given for both sides of the link')
 
         other_has_links = isinstance(other, LinkedDataFrame)
 
-- 
2.43.0


From 474d35d8c4e6c8e449b91a34d90dc25112252f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 23/52] fix: lookups through a link to an empty table

---
 cheval/ldf/api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 3fdd103..ffd9365 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -465,7 +465,10 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                series = series[indexer]  # Reorder/duplicate/drop the raw array
+                if len(series) == 0:
+                    series = np.empty(len(indexer), dtype=series.dtype)  # Nothing to look up, all rows are missing
+                else:
+                    series = series[indexer]  # Reorder/duplicate/drop the raw array
                 series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
-- 
2.43.0


From 07d07046994d6f8531339f33dd7a558afa3c4ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 24/52] fix: align aggregations with their groups, and fill
 rows without matches by the type of the result

---
 cheval/ldf/api.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index ffd9365..0d9ecd1 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -558,16 +558,29 @@ class LinkedDataFrame(DataFrame):
                     raise RuntimeError(f'Results of evaluation `{expr}` is non-numeric type {series_type}, which is not'
                                        f' allowed for aggregation function `{self._func_name}`')
 
-                # A fill value of NaN is only disallowed for integer types
-                fill_value = np.nan
-                if series_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.BOOL_NAME}:
-                    fill_value = int_fill
-                elif series_type == PandasDtype.TIME_NAME:
+                if series_type == PandasDtype.TIME_NAME:
                     raise NotImplementedError("Haven't found a way to instantiate NaT filler")
 
-                # Aggregate and align the result
+                # Aggregate and align the result. Rows of the other table without a valid key are not in any group, and
+                # some reductions leave out groups altogether
+                top.indexer_and_missing  # Computes the grouper too, if the link has not been indexed yet
                 grouper = top.other_grouper
-                grouped_result = to_numpy(getattr(evaluation.groupby(grouper), self._func_name)(**kwargs))
+                n_groups = grouper.max() + 1 if len(grouper) > 0 else 0
+                grouped = getattr(evaluation[grouper >= 0].groupby(grouper[grouper >= 0]), self._func_name)(**kwargs)
+                if len(grouped) != n_groups:
+                    grouped = grouped.reindex(np.arange(n_groups))
+                grouped_result = to_numpy(grouped)
+
+                # A fill value of NaN is only disallowed for integer types
+                fill_value = np.nan
+                if grouped_result.dtype.kind == 'b':
+                    fill_value = False
+                elif grouped_result.dtype.kind in 'iu':
+                    fill_value = int_fill
+                    if grouped_result.dtype.kind == 'u' and int_fill < 0:
+                        grouped_result = grouped_result.astype('i8')
+                elif series_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.BOOL_NAME}:
+                    fill_value = int_fill
 
                 return self._owner._resolve_history(grouped_result, fill_value)
 
-- 
2.43.0


From 4edeb22e8517874fc628c7590e62f32991f45162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 25/52] fix: fill values which don't fit the type of the column
 are not truncated

---
 cheval/ldf/api.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 0d9ecd1..7f623ed 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -11,6 +11,7 @@ import numexpr as ne
 import numpy as np
 import pandas as pd
 from pandas import DataFrame, Index, MultiIndex, Series
+from pandas.api.extensions import ExtensionDtype
 
 from ..parsing.constants import NAN_STR, NAN_VAL, NEG_INF_STR, NEG_INF_VAL
 from ..parsing.expr_items import EvaluationMode
@@ -460,6 +461,17 @@ class LinkedDataFrame(DataFrame):
         def _top(self) -> _LinkMeta:
             return self._history[0]
 
+        @staticmethod
+        def _get_filled_dtype(dtype, fill_value):
+            """Gets the data type which is able to hold the fill value too"""
+            if getattr(dtype, 'kind', 'O') not in 'biuf' or isinstance(dtype, ExtensionDtype):
+                return dtype
+            if not isinstance(fill_value, (bool, int, float, np.bool_, np.number)):
+                return np.dtype(object)
+            if dtype.kind == 'b' and not isinstance(fill_value, (bool, np.bool_)):
+                return np.dtype(object)
+            return np.result_type(dtype, np.min_scalar_type(fill_value))
+
         def _resolve_history(self, series: np.ndarray, fill_value):
             for meta in self._history:
                 # Get the indexing data
@@ -469,7 +481,9 @@ class LinkedDataFrame(DataFrame):
                     series = np.empty(len(indexer), dtype=series.dtype)  # Nothing to look up, all rows are missing
                 else:
                     series = series[indexer]  # Reorder/duplicate/drop the raw array
-                series[missing] = fill_value  # Fill in missing values
+                if len(missing) > 0:
+                    series = series.astype(self._get_filled_dtype(series.dtype, fill_value), copy=False)
+                    series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
         def __getattr__(self, item):
-- 
2.43.0


From 973b95f0190cd9794606ffa56ecfb7ce2483386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 26/52] fix: nth() has a default position, as documented

---
 cheval/ldf/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 7f623ed..aae65ae 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -554,6 +554,9 @@ class LinkedDataFrame(DataFrame):
                 return f'<LinkAggregator[{self._func_name}]>'
 
             def __call__(self, expr='1', *, int_fill=-1, **kwargs):
+                if self._func_name == 'nth':
+                    kwargs.setdefault('n', 1)
+
                 top = self._owner._top
                 df = top.other
 
@@ -591,8 +594,6 @@ class LinkedDataFrame(DataFrame):
                     fill_value = False
                 elif grouped_result.dtype.kind in 'iu':
                     fill_value = int_fill
-                    if grouped_result.dtype.kind == 'u' and int_fill < 0:
-                        grouped_result = grouped_result.astype('i8')
                 elif series_type in {PandasDtype.INT_NAME, PandasDtype.UINT_NAME, PandasDtype.BOOL_NAME}:
                     fill_value = int_fill
 
-- 
2.43.0


From c1deab6c70ecc76002b6e51dd77c391586d9095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 27/52] fix: temporary_fill_defaults() can be used as a context

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index aae65ae..6d5b27e 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -389,7 +389,7 @@ class LinkedDataFrame(DataFrame):
 
     def temporary_fill_defaults(self=None, **kwargs):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
-        yield from filler.temporary_fill_defaults(**kwargs)
+        return filler.temporary_fill_defaults(**kwargs)
 
     def reset_fill_defaults(self=None):
         filler = self._instance_filler if self is not None else LinkedDataFrame._class_filler
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 22032ea..a408d9d 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -88,6 +88,7 @@ class SeriesFillManager:
                 enum_ = PandasDtype[type_name]
                 previous_values[enum_] = self._fill_values[enum_]
                 self._fill_values[enum_] = default_value
+            yield
         finally:
             for enum_, original_value in previous_values.items():
                 self._fill_values[enum_] = original_value
-- 
2.43.0


From dcf89a51a2f0c6291193a1e25bfd31e3f98f18d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 28/52] fix: fill defaults of the class apply to new instances,
 as documented

---
 cheval/ldf/api.py          | 2 +-
 cheval/ldf/missing_data.py | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 6d5b27e..452c805 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -269,7 +269,7 @@ class LinkedDataFrame(DataFrame):
 
         object.__setattr__(self, '_links', {})
         object.__setattr__(self, '_identified_links', set())
-        object.__setattr__(self, '_instance_filler', SeriesFillManager())
+        object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index a408d9d..57a5a42 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -70,6 +70,11 @@ class SeriesFillManager:
             enum_ = PandasDtype[type_name]
             self._fill_values[enum_] = default_value
 
+    def copy(self) -> SeriesFillManager:
+        copied = SeriesFillManager()
+        copied._fill_values = self._fill_values.copy()
+        return copied
+
     def get_fill(self, s: pd.Series):
         dtype = infer_dtype(s)
         return self._fill_values[dtype]
-- 
2.43.0


From 608a12e7586a547b4eabf4b9a1d4613dfb864d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 29/52] fix: pivot_table() with lists of columns and lookups

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 452c805..50fe391 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -855,7 +855,7 @@ class LinkedDataFrame(DataFrame):
                 new_columns[lookup_items] = self.evaluate(lookup_items)
         elif (lookup_items is not None) and not isinstance(lookup_items, (pd.Series, np.ndarray)):
             for item in lookup_items:
-                if lookup_items in self.columns:
+                if item in self.columns:
                     new_columns[item] = self[item]
                 else:
                     new_columns[item] = self.evaluate(item)
-- 
2.43.0


From 0b20ea2f538042e07d5e4516c18deeb249d9bcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 30/52] fix: aggregations without an argument inside of
 expressions

---
 cheval/parsing/ast_transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 4d540c7..37f4d03 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -278,7 +278,8 @@ class ExpressionParser(ast.NodeTransformer):
             raise UnsupportedSyntaxError("Keyword args are not supported inside aggregations")
         if call_node.starargs is not None or call_node.kwargs is not None:
             raise UnsupportedSyntaxError("Star-args or star-kwargs are not supported inside aggregations")
-        arg_expression = astor.to_source(call_node.args[0])
+        # Same default as when calling the aggregation directly
+        arg_expression = astor.to_source(call_node.args[0]).strip() if len(call_node.args) > 0 else '1'
 
         if name in self.simple_symbols:
             raise UnsupportedSyntaxError("Inconsistent usage of symbol '%s'" % name)
-- 
2.43.0


From affb33cf7b46ea4fe8d874907726291beeee2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 31/52] fix: fill of positional aggregations of boolean values

---
 cheval/ldf/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 50fe391..9c8e144 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -590,7 +590,7 @@ class LinkedDataFrame(DataFrame):
 
                 # A fill value of NaN is only disallowed for integer types
                 fill_value = np.nan
-                if grouped_result.dtype.kind == 'b':
+                if series_type == PandasDtype.BOOL_NAME and grouped_result.dtype.kind in 'bO':
                     fill_value = False
                 elif grouped_result.dtype.kind in 'iu':
                     fill_value = int_fill
-- 
2.43.0


From 3953c195e371ed2c16f4876dc5e4489ceb596fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 32/52] fix: keep links attached to their rows when selecting,
 sorting, dropping, sampling or reindexing rows

---
 cheval/ldf/api.py | 94 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 74 insertions(+), 20 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 9c8e144..7a31003 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -79,6 +79,15 @@ class _IndexMeta:
             return frame.index.nlevels
         return len(self.labels)
 
+    def is_available(self, frame: DataFrame) -> bool:
+        """Checks if all of the labels can be found in the frame"""
+        if self.labels is None:
+            return True
+        if self.from_row_labels:
+            n_levels, names = frame.index.nlevels, frame.index.names
+            return all(label in names or (isinstance(label, int) and label < n_levels) for label in self.labels)
+        return all(label in frame.columns for label in self.labels)
+
     def validate(self, frame: DataFrame):
         if self.labels is None:
             return  # Use the index, which is always available
@@ -188,15 +197,35 @@ class _LinkMeta:
         self._make_indexer(*self._get_indexers())
         self._missing_indices = None  # Not valid anymore if the indexer got refreshed
 
-    def copy_meta(self) -> _LinkMeta:
-        copied = _LinkMeta(self.owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
+    def copy_meta(self, owner: LinkedDataFrame) -> _LinkMeta:
+        copied = _LinkMeta(owner, self.other, self.self_meta, self.other_meta, self._other_has_links)
         copied.aggregation_required = self.aggregation_required
         return copied
 
-    def copy(self, indices=None) -> _LinkMeta:
-        copied = self.copy_meta()
+    def can_index(self, frame: LinkedDataFrame) -> bool:
+        """Checks if the indexer of this link could be computed for another frame, from its own columns or index"""
+        return self.self_meta.is_available(frame) and self.self_meta.nlevels(frame) == self.other_meta.nlevels(self.other)
+
+    def copy(self, owner: LinkedDataFrame, indices=None, missing: np.ndarray = None) -> _LinkMeta:
+        """Copies this link to a new owner, which consists of all of the rows (or of the selected rows) of the current
+        owner, in addition to any missing rows"""
+        copied = self.copy_meta(owner)
+
+        if self.flat_indexer is None:
+            if not self.can_index(self.owner):
+                return copied  # The current owner has lost the columns of this link
+            # Can be left to be lazy-computed, but only from columns which are the same ones for the new owner
+            lazy = missing is None and not self.self_meta.from_row_labels and self.can_index(owner)
+            if lazy and indices is None:
+                lazy = self.self_meta.get_indexer(self.owner).equals(self.self_meta.get_indexer(owner))
+            if lazy:
+                return copied
+            self.precompute()
 
-        if self.flat_indexer is not None:
+        if missing is not None:
+            copied.flat_indexer = np.full(len(indices), -1)
+            copied.flat_indexer[~missing] = self.flat_indexer[indices[~missing]]
+        else:
             copied.flat_indexer = self.flat_indexer[indices] if indices is not None else self.flat_indexer
 
         # If we are not taking a slice, copy missing indices (if they exist)
@@ -657,9 +686,7 @@ class LinkedDataFrame(DataFrame):
         if method == "groupby":
             self._copy_links(other, reindex=True)
         else:
-            for link_name, link in other._links.items():
-                self._links[link_name] = link.copy_meta()
-            self._identified_links = other._identified_links.copy()
+            self._copy_links(other)
 
         return self
 
@@ -668,20 +695,46 @@ class LinkedDataFrame(DataFrame):
 
         If `reindex` is True, computes an indexer based on the parent DataFrame's and
         this DataFrame's indexes and passes it to `_LinkMeta.copy` to modify the linkage.
+
+        When it is not known how the rows of this DataFrame relate to the rows of its parent, the linkage needs to be
+        computed from this DataFrame. Links for which this is not possible are dropped.
         """
-        if reindex:
+        same_rows, indexer = self.index.is_(parent.index), None
+        if reindex and not same_rows and parent.index.is_unique:
             indexer = parent.index.get_indexer(self.index)
-        else:
-            indexer = None
-        link_names = set()
-        for link_name, link in parent._links.items():
-            self._links[link_name] = link.copy(indexer)
-            link_names.add(link_name)
-        self._identified_links = link_names
+            if np.any(indexer < 0):
+                indexer = None
 
-    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray):
+        for link_name, link in parent._links.items():
+            if same_rows or indexer is not None:
+                self._links[link_name] = link.copy(self, indexer)
+            elif link.can_index(self):
+                self._links[link_name] = link.copy_meta(self)
+        self._identified_links = {name for name in parent._identified_links if name in self._links}
+
+    def _update_inplace(self, result, *args, **kwargs):
+        same_rows, links = self.index.is_(result.index), {}
+        for link_name, link in self._links.items():
+            if same_rows:
+                if link.flat_indexer is None and not link.can_index(result):
+                    link.precompute()  # Last chance to do so
+                links[link_name] = link
+            elif link.can_index(result):
+                links[link_name] = link.copy_meta(self)
+        super()._update_inplace(result, *args, **kwargs)
+        self._links = links
+        self._identified_links = {name for name in self._identified_links if name in links}
+
+    def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray, missing: np.ndarray = None):
         for link_name, link_entry in self._links.items():
-            target._links[link_name] = link_entry.copy(indexer)
+            target._links[link_name] = link_entry.copy(target, indexer, missing)
+        target._identified_links = self._identified_links.copy()
+
+    def take(self, indices, axis=0, *args, **kwargs):
+        taken = super().take(indices, axis, *args, **kwargs)
+        if self._get_axis_number(axis) == 0:
+            self.__subset_links(taken, np.asarray(indices))
+        return taken
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
         sliced: LinkedDataFrame = super()._take_with_is_copy(indices, axis=axis)
@@ -700,7 +753,8 @@ class LinkedDataFrame(DataFrame):
 
         if isinstance(new_frame, LinkedDataFrame) and (0 in reindexers):
             _, indexer = reindexers[0]
-            self.__subset_links(new_frame, indexer)
+            missing = None if indexer is None else (indexer < 0)
+            self.__subset_links(new_frame, indexer, missing if missing is not None and missing.any() else None)
         return new_frame
 
     def _slice(self, slobj, axis=0, kind=None):
@@ -716,7 +770,7 @@ class LinkedDataFrame(DataFrame):
 
         # Copy the link data
         for link_name, link_entry in self._links.items():
-            copied._links[link_name] = link_entry.copy()
+            copied._links[link_name] = link_entry.copy(copied)
 
         return copied
 
-- 
2.43.0


From 6626ab0449ac4849d5843c671b44c310d6b7ac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:03 +0000
Subject: [PATCH 33/52] fix: negating a literal in an expression is a logical
 negation

NumExpr leaves operations between literals to Python, so that 'not True' was evaluated as '~True', which is -2.
---
 cheval/parsing/ast_transformer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cheval/parsing/ast_transformer.py b/cheval/parsing/ast_transformer.py
index 37f4d03..ceffd01 100644
--- a/cheval/parsing/ast_transformer.py
+++ b/cheval/parsing/ast_transformer.py
@@ -56,7 +56,11 @@ class ExpressionParser(ast.NodeTransformer):
     def visit_unaryop(self, node):
         # Converts 'not' into '~' which NumExpr supports
         if isinstance(node.op, ast.Not):
-            return ast.UnaryOp(op=ast.Invert(), operand=self.visit(node.operand))
+            operand = self.visit(node.operand)
+            if not any(isinstance(child, ast.Name) for child in ast.walk(operand)):
+                # NumExpr leaves operations between literals to Python, for which '~True' is -2
+                return ast.Compare(left=operand, ops=[ast.Eq()], comparators=[ast.NameConstant(False)])
+            return ast.UnaryOp(op=ast.Invert(), operand=operand)
         elif isinstance(node.op, ast.USub):
             return ast.UnaryOp(op=node.op, operand=self.visit(node.operand))
         raise NotImplementedError(type(node.op))
-- 
2.43.0


From 30b47a117dc6750ef3fdbf5f87fa8c18aa9d2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 34/52] fix: nullable integer columns without missing values
 can be used in expressions

---
 cheval/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/utils.py b/cheval/utils.py
index 3150167..d7f4b70 100644
--- a/cheval/utils.py
+++ b/cheval/utils.py
@@ -34,7 +34,7 @@ def convert_series(s: pd.Series, allow_raw: bool = False) -> NDArray:
         # need to deal with NA values in integer series in pandas >= 0.24
         # https://pandas.pydata.org/pandas-docs/stable/whatsnew/v1.0.0.html#arrays-integerarray-now-uses-pandas-na
         if np.all(~s.isna()):  # no NA values found
-            return s.to_numpy()[...]
+            return s.to_numpy(dtype=getattr(dtype, 'numpy_dtype', dtype))[...]  # Not an object array of nullable integers
         else:  # if NA values are present, yet pandas keeps the series as an IntegerArray instead of float
             try:
                 return np.asarray(s, dtype='float')[...]
-- 
2.43.0


From 42a07b2b86d4265dee26fd64bbc88647903ceb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 35/52] fix: lookups of categories and other extension types
 through a link to an empty table

---
 cheval/ldf/api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 7a31003..c0b4400 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -506,8 +506,11 @@ class LinkedDataFrame(DataFrame):
                 # Get the indexing data
                 indexer, missing = meta.indexer_and_missing
 
-                if len(series) == 0:
-                    series = np.empty(len(indexer), dtype=series.dtype)  # Nothing to look up, all rows are missing
+                if len(series) == 0:  # Nothing to look up, all rows are missing
+                    if isinstance(series.dtype, ExtensionDtype):
+                        series = series.take(np.full(len(indexer), -1), allow_fill=True)
+                    else:
+                        series = np.empty(len(indexer), dtype=series.dtype)
                 else:
                     series = series[indexer]  # Reorder/duplicate/drop the raw array
                 if len(missing) > 0:
-- 
2.43.0


From c90824ef4503e4387aa8c351f34efe975b28e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 36/52] fix: select no rows of a linked table by an empty list
 of positions

---
 cheval/ldf/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index c0b4400..477bd97 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -729,6 +729,8 @@ class LinkedDataFrame(DataFrame):
         self._identified_links = {name for name in self._identified_links if name in links}
 
     def __subset_links(self, target: LinkedDataFrame, indexer: np.ndarray, missing: np.ndarray = None):
+        if indexer is not None and not isinstance(indexer, slice):
+            indexer = np.asarray(indexer, dtype=np.intp)  # An empty list is no array of integers by itself
         for link_name, link_entry in self._links.items():
             target._links[link_name] = link_entry.copy(target, indexer, missing)
         target._identified_links = self._identified_links.copy()
@@ -736,7 +738,7 @@ class LinkedDataFrame(DataFrame):
     def take(self, indices, axis=0, *args, **kwargs):
         taken = super().take(indices, axis, *args, **kwargs)
         if self._get_axis_number(axis) == 0:
-            self.__subset_links(taken, np.asarray(indices))
+            self.__subset_links(taken, indices)
         return taken
 
     def _take_with_is_copy(self, indices, axis=0):  # pandas >= 1.0.x
-- 
2.43.0


From 7d2a7b365f99432b3641e8ec586c115569ea4437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 37/52] fix: text results of evaluate() are text instead of
 bytes

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 477bd97..4866840 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -835,6 +835,8 @@ class LinkedDataFrame(DataFrame):
 
         casting_rule = 'same_kind' if allow_casting else 'safe'
         vector = ne.evaluate(new_expr.transformed, local_dict=ld, out=out, casting=casting_rule)
+        if vector.dtype.kind == 'S' and out is None:
+            vector = np.char.decode(vector).astype(object)  # NumExpr only knows of byte-strings
         return Series(vector, index=self.index)
 
     # endregion
-- 
2.43.0


From 085c17a86b171272d3e21afca64593346c126563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:10 +0000
Subject: [PATCH 38/52] fix: fill values keep their precision, and that of the
 matched rows

---
 cheval/ldf/api.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 4866840..681b779 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -491,15 +491,23 @@ class LinkedDataFrame(DataFrame):
             return self._history[0]
 
         @staticmethod
-        def _get_filled_dtype(dtype, fill_value):
-            """Gets the data type which is able to hold the fill value too"""
+        def _get_filled_dtype(values: np.ndarray, fill_value):
+            """Gets the data type which is able to hold the values and the fill value too, without changing either"""
+            dtype = values.dtype
             if getattr(dtype, 'kind', 'O') not in 'biuf' or isinstance(dtype, ExtensionDtype):
                 return dtype
             if not isinstance(fill_value, (bool, int, float, np.bool_, np.number)):
                 return np.dtype(object)
             if dtype.kind == 'b' and not isinstance(fill_value, (bool, np.bool_)):
                 return np.dtype(object)
-            return np.result_type(dtype, np.min_scalar_type(fill_value))
+            if dtype.kind in 'iu' and isinstance(fill_value, (float, np.floating)):
+                filled_dtype = np.dtype(np.float64)
+            else:
+                filled_dtype = np.result_type(dtype, np.min_scalar_type(fill_value))
+            if dtype.kind in 'iu' and filled_dtype.kind == 'f' and dtype.itemsize == 8:
+                if np.any(np.abs(values.astype(np.float64)) >= 2.0 ** 53):
+                    return np.dtype(object)
+            return filled_dtype
 
         def _resolve_history(self, series: np.ndarray, fill_value):
             for meta in self._history:
@@ -514,7 +522,7 @@ class LinkedDataFrame(DataFrame):
                 else:
                     series = series[indexer]  # Reorder/duplicate/drop the raw array
                 if len(missing) > 0:
-                    series = series.astype(self._get_filled_dtype(series.dtype, fill_value), copy=False)
+                    series = series.astype(self._get_filled_dtype(series, fill_value), copy=False)
                     series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
-- 
2.43.0


From be0b9a1bf24ad5cc13117dd526dd3caacb3e48ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 39/52] fix: null values of Pandas can fill dates

---
 cheval/ldf/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 681b779..673c62e 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -523,6 +523,8 @@ class LinkedDataFrame(DataFrame):
                     series = series[indexer]  # Reorder/duplicate/drop the raw array
                 if len(missing) > 0:
                     series = series.astype(self._get_filled_dtype(series, fill_value), copy=False)
+                    if series.dtype.kind in 'mM' and pd.isna(fill_value):
+                        fill_value = None  # Numpy doesn't know of the null values of Pandas
                     series[missing] = fill_value  # Fill in missing values
             return Series(series, index=self._root_index)
 
-- 
2.43.0


From 2b8a634b15bab763f87aa145fbaf1addfc8172a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 40/52] fix: columns of objects which are no text have the fill
 of objects

---
 cheval/ldf/missing_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/missing_data.py b/cheval/ldf/missing_data.py
index 57a5a42..cad9a4e 100644
--- a/cheval/ldf/missing_data.py
+++ b/cheval/ldf/missing_data.py
@@ -35,7 +35,10 @@ def infer_dtype(s: pd.Series) -> PandasDtype:
     if hasattr(s, 'cat'):
         return PandasDtype.CAT_NAME
     if hasattr(s, 'str'):
-        return PandasDtype.TEXT_NAME
+        # The accessor is also available for columns of all kinds of other objects
+        if s.dtype != object or pd.api.types.infer_dtype(s, skipna=True) in {'string', 'bytes', 'empty'}:
+            return PandasDtype.TEXT_NAME
+        return PandasDtype.OBJ_NAME
     if hasattr(s, 'dt'):
         return PandasDtype.TIME_NAME
 
-- 
2.43.0


From 6b1d1af2a607476ed48d306e9b380f80a886289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:30 +0000
Subject: [PATCH 41/52] fix: look-ups keep the time zone of dates

---
 cheval/ldf/api.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 673c62e..92fc5dd 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -509,6 +509,12 @@ class LinkedDataFrame(DataFrame):
                     return np.dtype(object)
             return filled_dtype
 
+        @staticmethod
+        def _get_values(series: Series):
+            if isinstance(series.dtype, ExtensionDtype):
+                return series.array  # E.g. the values of dates are without their time zone
+            return to_numpy(series)
+
         def _resolve_history(self, series: np.ndarray, fill_value):
             for meta in self._history:
                 # Get the indexing data
@@ -546,8 +552,7 @@ class LinkedDataFrame(DataFrame):
             df = top.other
             series = df[item]
             fill_value = LinkedDataFrame._get_class_fill(series)
-            arr = to_numpy(series)
-            return self._resolve_history(arr, fill_value)
+            return self._resolve_history(self._get_values(series), fill_value)
 
     class _LinkNode(_BaseNode):
         """One-to-one or one-to-many node for LinkedDataFrames"""
@@ -574,8 +579,7 @@ class LinkedDataFrame(DataFrame):
 
             series = df[item]
             fill_value = df._get_fill(series, item)
-            arr = to_numpy(series)
-            return self._resolve_history(arr, fill_value)
+            return self._resolve_history(self._get_values(series), fill_value)
 
     class _LeafAggregation(_BaseNode):
         def __dir__(self):
-- 
2.43.0


From 2cb82d6d5e83f82d3d5e59187546b8ceac7fbf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 42/52] fix: renaming the index of a result doesn't rename that
 of the model, table or other results

---
 cheval/ldf/api.py |  4 ++--
 cheval/model.py   | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 92fc5dd..39d61ed 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -532,7 +532,7 @@ class LinkedDataFrame(DataFrame):
                     if series.dtype.kind in 'mM' and pd.isna(fill_value):
                         fill_value = None  # Numpy doesn't know of the null values of Pandas
                     series[missing] = fill_value  # Fill in missing values
-            return Series(series, index=self._root_index)
+            return Series(series, index=self._root_index.view())
 
         def __getattr__(self, item):
             try:
@@ -851,7 +851,7 @@ class LinkedDataFrame(DataFrame):
         vector = ne.evaluate(new_expr.transformed, local_dict=ld, out=out, casting=casting_rule)
         if vector.dtype.kind == 'S' and out is None:
             vector = np.char.decode(vector).astype(object)  # NumExpr only knows of byte-strings
-        return Series(vector, index=self.index)
+        return Series(vector, index=self.index.view())
 
     # endregion
 
diff --git a/cheval/model.py b/cheval/model.py
index 06acb52..43fb33b 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -427,7 +427,7 @@ class ChoiceModel(object):
             raw_result, logsum = worker_multinomial_sample(utility_table, n_draws, random_seed)
 
         # Finalize results
-        logsum = pd.Series(logsum, index=self.decision_units)
+        logsum = pd.Series(logsum, index=self.decision_units.view())
         result = self._convert_result(raw_result, astype, squeeze, result_name)
         return result, logsum
 
@@ -535,8 +535,8 @@ class ChoiceModel(object):
 
         if astype == 'index':
             if squeeze and n_draws == 1:
-                return pd.Series(raw_result[:, 0], index=record_index, name=result_name)
-            return pd.DataFrame(raw_result, index=record_index, columns=column_index)
+                return pd.Series(raw_result[:, 0], index=record_index.view(), name=result_name)
+            return pd.DataFrame(raw_result, index=record_index.view(), columns=column_index)
 
         choices = self.choices
         if choices.nlevels > 1:
@@ -554,7 +554,7 @@ class ChoiceModel(object):
         retval = []
         for col in range(n_draws):
             indices = raw_result[:, col]
-            retval.append(pd.Series(lookup_table.take(indices), index=record_index))
+            retval.append(pd.Series(lookup_table.take(indices), index=record_index.view()))
         retval = pd.concat(retval, axis=1)
         retval.columns = column_index
 
@@ -613,9 +613,9 @@ class ChoiceModel(object):
             result_frame = self._build_nested_stochastic_frame(raw_result)
         else:
             raw_result, top_lvl_ls, nested_ls = worker_multinomial_probabilities(utility_table, check_infeasible)
-            result_frame = pd.DataFrame(raw_result, index=self.decision_units, columns=self.choices)
-        top_lvl_ls = pd.Series(top_lvl_ls, index=self.decision_units)
-        nested_ls = pd.DataFrame(nested_ls, index=self.decision_units, columns=self.choices)
+            result_frame = pd.DataFrame(raw_result, index=self.decision_units.view(), columns=self.choices)
+        top_lvl_ls = pd.Series(top_lvl_ls, index=self.decision_units.view())
+        nested_ls = pd.DataFrame(nested_ls, index=self.decision_units.view(), columns=self.choices)
 
         return result_frame, top_lvl_ls, nested_ls
 
@@ -624,7 +624,7 @@ class ChoiceModel(object):
         choice_index = self.choices
         filter_array = choice_index.isin(elemental_index)
 
-        return pd.DataFrame(raw_result[:, filter_array].copy(), index=self.decision_units,
+        return pd.DataFrame(raw_result[:, filter_array].copy(), index=self.decision_units.view(),
                             columns=choice_index[filter_array])
 
     # endregion
-- 
2.43.0


From 8eda6980673994b6e71a31e9357dc310ee1d64d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:47 +0000
Subject: [PATCH 43/52] fix: lookups of tables named alike don't share
 substitutions

---
 cheval/parsing/expr_items.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cheval/parsing/expr_items.py b/cheval/parsing/expr_items.py
index f94b627..7595677 100644
--- a/cheval/parsing/expr_items.py
+++ b/cheval/parsing/expr_items.py
@@ -24,7 +24,7 @@ class ChainedSymbol(object):
         return ChainTuple(chain, func, args, True)
 
     def _make_sub(self, *, prepend_at=False) -> str:
-        s1 = "__sub_%s%s" % (self._name, len(self._lookups))
+        s1 = "__sub_%s_%s" % (self._name, len(self._lookups))  # "t1" and "0" differ from "t" and "10"
         if prepend_at:
             return '@' + s1
         return s1
-- 
2.43.0


From 9e389d1990bd238db524d1bb1152d708bc79c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 44/52] fix: trace the decision unit labelled zero too

---
 cheval/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/model.py b/cheval/model.py
index 43fb33b..8cb3a7e 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -459,7 +459,7 @@ class ChoiceModel(object):
         debug_label = None
         debug_expr = []
         debug_results = []
-        if self.debug_id:
+        if self.debug_id is not None:
             debug_label = row_index.get_loc(self.debug_id)
 
         utilities = to_numpy(self._partial_utilities).copy()  # Runs must not accumulate into the partial utilities
@@ -498,11 +498,11 @@ class ChoiceModel(object):
             self._kernel_eval(expr.transformed, local_dict, utilities, choice_mask, casting_rule=casting_rule)
 
             # save each expression and values for a specific od pair
-            if self.debug_id:
+            if self.debug_id is not None:
                 debug_expr.append(expr.raw)
                 debug_results.append(utilities[debug_label].copy())
 
-        if self.debug_id:  # expressions.tolist() doesn't work...
+        if self.debug_id is not None:  # expressions.tolist() doesn't work...
             self.debug_results = pd.DataFrame(debug_results, index=debug_expr, columns=col_index)
 
         nans = np.isnan(utilities)
-- 
2.43.0


From c2257ca3edeea5e9d67484a2eea0b3a4c38c57ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 45/52] fix: adding two specifications keeps their groups apart
 and in order

---
 cheval/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cheval/api.py b/cheval/api.py
index 6c5fb94..92293db 100644
--- a/cheval/api.py
+++ b/cheval/api.py
@@ -204,15 +204,15 @@ class ExpressionGroup(object):
         new._ungrouped_expressions = self._ungrouped_expressions + other._ungrouped_expressions
 
         new._subgroups = {}
-        keys = set(self._subgroups.keys()) | set(other._subgroups.keys())
+        keys = dict.fromkeys([*self._subgroups.keys(), *other._subgroups.keys()])  # Keeps the order of the groups
         for key in keys:
             key_in_self, key_in_other = key in self._subgroups, key in other._subgroups
             if key_in_self and key_in_other:
                 new._subgroups[key] = self._subgroups[key] + other._subgroups[key]
             elif key_in_self:
-                new._subgroups[key] = self._subgroups[key]
+                new._subgroups[key] = self._subgroups[key] + ExpressionSubGroup(key)
             elif key_in_other:
-                new._subgroups[key] = other._subgroups[key]
+                new._subgroups[key] = ExpressionSubGroup(key) + other._subgroups[key]
 
         return new
 
-- 
2.43.0


From 1a126c7d72ab765810d21ab41acad9300be93ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 46/52] fix: aggregated groups are not linked as if they were
 rows of the table

---
 cheval/ldf/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 39d61ed..cd5eaed 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -719,7 +719,8 @@ class LinkedDataFrame(DataFrame):
         same_rows, indexer = self.index.is_(parent.index), None
         if reindex and not same_rows and parent.index.is_unique:
             indexer = parent.index.get_indexer(self.index)
-            if np.any(indexer < 0):
+            # Aggregated tables are labelled by their groups, which are no rows of the parent
+            if np.any(indexer < 0) or not DataFrame(self).equals(DataFrame(parent).take(indexer)):
                 indexer = None
 
         for link_name, link in parent._links.items():
-- 
2.43.0


From 0263d304734b4835886a35b2e76992100bc399fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:46 +0000
Subject: [PATCH 47/52] fix: pickled LinkedDataFrames keep their links

---
 cheval/ldf/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index cd5eaed..8255641 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -301,6 +301,12 @@ class LinkedDataFrame(DataFrame):
         object.__setattr__(self, '_instance_filler', LinkedDataFrame._class_filler.copy())
         object.__setattr__(self, '_column_fills', {})
 
+    def __getstate__(self) -> Dict[str, Any]:
+        state = super().__getstate__()
+        state.update({name: getattr(self, name) for name in
+                      ['_links', '_identified_links', '_instance_filler', '_column_fills']})
+        return state
+
     def link_to(self, other: DataFrame, name: str, *, on: _LabelType = None, levels: _LabelType = None,
                 on_self: _LabelType = None, on_other: _LabelType = None, self_levels: _LabelType = None,
                 other_levels: _LabelType = None, precompute: bool = True) -> LinkAggregationRequired:
-- 
2.43.0


From 946c7160d0544e11e94ee708ba4ba7676b0adc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 48/52] fix: tables transformed by groups do not get the links
 of their groups

---
 cheval/ldf/api.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index 8255641..fd09657 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -723,11 +723,14 @@ class LinkedDataFrame(DataFrame):
         computed from this DataFrame. Links for which this is not possible are dropped.
         """
         same_rows, indexer = self.index.is_(parent.index), None
-        if reindex and not same_rows and parent.index.is_unique:
-            indexer = parent.index.get_indexer(self.index)
+        if reindex and not same_rows:
             # Aggregated tables are labelled by their groups, which are no rows of the parent
-            if np.any(indexer < 0) or not DataFrame(self).equals(DataFrame(parent).take(indexer)):
-                indexer = None
+            if parent.index.is_unique:
+                indexer = parent.index.get_indexer(self.index)
+                if np.any(indexer < 0) or not DataFrame(self).equals(DataFrame(parent).take(indexer)):
+                    return
+            elif self.index.names != parent.index.names or not self.index.isin(parent.index).all():
+                return
 
         for link_name, link in parent._links.items():
             if same_rows or indexer is not None:
-- 
2.43.0


From b08deab02e7a3f2ac328a364690aba4259ed9177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 49/52] fix: links are dropped if their key columns become
 ambiguous

---
 cheval/ldf/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index fd09657..a0b2b8c 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -86,7 +86,8 @@ class _IndexMeta:
         if self.from_row_labels:
             n_levels, names = frame.index.nlevels, frame.index.names
             return all(label in names or (isinstance(label, int) and label < n_levels) for label in self.labels)
-        return all(label in frame.columns for label in self.labels)
+        columns = frame.columns
+        return all(label in columns and isinstance(columns.get_loc(label), int) for label in self.labels)
 
     def validate(self, frame: DataFrame):
         if self.labels is None:
-- 
2.43.0


From 1f8b7fca2d52277877f0a2da0c37cdba23ad7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:41 +0000
Subject: [PATCH 50/52] fix: deferred links survive the removal of their keys
 from the table

---
 cheval/ldf/api.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index a0b2b8c..ebda377 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -207,6 +207,10 @@ class _LinkMeta:
         """Checks if the indexer of this link could be computed for another frame, from its own columns or index"""
         return self.self_meta.is_available(frame) and self.self_meta.nlevels(frame) == self.other_meta.nlevels(self.other)
 
+    def uses_column(self, label) -> bool:
+        """Checks if a column of the owner is needed for computing the indexer of this link"""
+        return not self.self_meta.from_row_labels and label in self.self_meta.labels
+
     def copy(self, owner: LinkedDataFrame, indices=None, missing: np.ndarray = None) -> _LinkMeta:
         """Copies this link to a new owner, which consists of all of the rows (or of the selected rows) of the current
         owner, in addition to any missing rows"""
@@ -740,6 +744,23 @@ class LinkedDataFrame(DataFrame):
                 self._links[link_name] = link.copy_meta(self)
         self._identified_links = {name for name in parent._identified_links if name in self._links}
 
+    def __delitem__(self, key):
+        for link in self._links.values():
+            if link.flat_indexer is None and link.uses_column(key) and link.can_index(self):
+                link.precompute()  # Last chance to do so
+        super().__delitem__(key)
+
+    def _set_axis(self, axis: int, labels):
+        previous_labels = self._mgr.axes[axis]
+        super()._set_axis(axis, labels)
+        lost = [link for link in self._links.values() if link.flat_indexer is None and not link.can_index(self)]
+        if lost:
+            super()._set_axis(axis, previous_labels)
+            for link in lost:
+                if link.can_index(self):
+                    link.precompute()  # Last chance to do so
+            super()._set_axis(axis, labels)
+
     def _update_inplace(self, result, *args, **kwargs):
         same_rows, links = self.index.is_(result.index), {}
         for link_name, link in self._links.items():
-- 
2.43.0


From 1d45ef3173c54be56cbeb95be0c9cb437ee51fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:55 +0000
Subject: [PATCH 51/52] fix: subsets without the traced decision unit can be
 run

---
 cheval/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cheval/model.py b/cheval/model.py
index 8cb3a7e..43e5f7c 100644
--- a/cheval/model.py
+++ b/cheval/model.py
@@ -733,8 +733,9 @@ class ChoiceModel(object):
 
         assert mask.index.equals(self.decision_units), "Mask Series must match decision units"
         subset_index = self.decision_units[mask]
+        debug_id = self.debug_id if self.debug_id in subset_index else None  # Can only be traced if it is still there
 
-        new = ChoiceModel(precision=self.precision, debug_id=self.debug_id)
+        new = ChoiceModel(precision=self.precision, debug_id=debug_id)
         new._max_level = self._max_level
 
         # ChoiceNode refs will be the same, but that's ok because users shouldn't be changing these at this point
-- 
2.43.0


From 2e7edfb6568e518c50c4a83f6c89af1b94092b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:51 +0000
Subject: [PATCH 52/52] fix: a thread which looks up a deferred link does not
 take its missing rows away from another one

---
 cheval/ldf/api.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cheval/ldf/api.py b/cheval/ldf/api.py
index ebda377..a5fd4c7 100644
--- a/cheval/ldf/api.py
+++ b/cheval/ldf/api.py
@@ -176,10 +176,12 @@ class _LinkMeta:
                 # Those were combined into a single case for performance purposes
                 self.flat_indexer = other_indexer.get_indexer(self_indexer)
 
-    def _compute_missing_indices(self):
+    def _compute_missing_indices(self) -> np.ndarray:
         """Initializes `missing_indices` by finding the rows which do not have any linkages
         """
-        self._missing_indices = np.nonzero(self.flat_indexer == -1)[0]
+        missing = np.nonzero(self.flat_indexer == -1)[0]
+        self._missing_indices = missing
+        return missing
 
     @property
     def chained(self) -> bool:
@@ -189,9 +191,10 @@ class _LinkMeta:
     def indexer_and_missing(self) -> Tuple[np.ndarray, np.ndarray]:
         if self.flat_indexer is None:
             self.precompute()
-        if self._missing_indices is None:
-            self._compute_missing_indices()
-        return self.flat_indexer, self._missing_indices
+        missing = self._missing_indices  # Another thread might be computing the indexer too
+        if missing is None:
+            missing = self._compute_missing_indices()
+        return self.flat_indexer, missing
 
     def precompute(self):
         """Top-level method to precompute the indexer"""
-- 
2.43.0

