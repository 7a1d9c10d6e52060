From fefb01c338b774e37da55b4eb7edc504bae2c32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 1/5] fix: interpolate simulated continuation values on the
 configured experience grid

---
 soepy/simulate/simulate_auxiliary.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..4be2a1e 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -139,7 +139,9 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_exp_grid(
+            continuation_grid, stock[:, None], model_spec.exp_grid
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -322,8 +324,10 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_exp_grid(values, stock, exp_grid):
+    """Interpolate along the last axis on the experience grid.
+
+    Same rule as ``linear_interp_1d``, which is used in the solution.
 
     Parameters
     ----------
@@ -331,14 +335,16 @@ def _interp_uniform_grid(values, stock):
         Shape (..., n_grid)
     stock : np.ndarray
         Shape (...) matching the leading dimensions of values.
+    exp_grid : array-like
+        Increasing experience grid, shape (n_grid,)
     """
 
-    n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
+    grid = np.asarray(exp_grid, dtype=float)
+    stock = np.clip(stock, 0.0, 1.0)
 
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(np.searchsorted(grid, stock, side="right"), 1, grid.shape[0] - 1)
+    idx_lo = idx_hi - 1
+    w = (stock - grid[idx_lo]) / (grid[idx_hi] - grid[idx_lo])
 
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
-- 
2.43.0


From 4c84170e3350aa027fa3ceeb1e05fc53544ef118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 2/5] fix: scale the wage used for simulated non-employment
 resources as in the solution

---
 soepy/simulate/simulate_auxiliary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 4be2a1e..c1851c9 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -201,14 +201,15 @@ def simulate_agents_over_periods(
         )
         employment_resources = employment_resources - child_care_costs
 
-        # Compute non-employment resources at current wages.
+        # Compute non-employment resources at current wages, scaled as in the solution.
+        log_wage_scaled = log_wage_agents + np.log(model_spec.elasticity_scale)
         non_emp_resources_agents = np.asarray(
             calculate_non_employment_consumption_resources(
                 deductions_spec=model_spec.ssc_deductions,
                 income_tax_spec=model_spec.tax_params,
                 model_spec=model_spec,
                 states=state_space[idx],
-                log_wage_systematic=log_wage_agents[:, None],
+                log_wage_systematic=log_wage_scaled[:, None],
                 male_wage=male_wage,
                 child_benefits=child_benefits,
                 tax_splitting=model_spec.tax_splitting,
-- 
2.43.0


From 79da53568250154f00b466b091e56546789f1dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 3/5] fix: part-time child-raising benefit in the solution must
 not depend on child benefits being positive

---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From 456c020a85bf94cf47befcc8abed7e7ba0794542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 4/5] fix: order type shares and type-specific costs by type
 number

---
 soepy/pre_processing/model_processing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..c190674 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import re
 
 import jax.numpy as jnp
 import numpy as np
@@ -49,7 +50,9 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            v
+            for k, v in sorted(model_params_dict["shares"].items(), key=_label_order)
+            if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -140,7 +143,9 @@ def group_parameters(model_params_dict_expanded):
         model_params_dict_flat["theta_" + i] = np.array(
             [
                 v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
+                for k, v in sorted(
+                    model_params_dict_expanded["hetrg_unobs"].items(), key=_label_order
+                )
                 if "{}".format("theta_" + i) in k
             ],
             dtype=float,
@@ -149,6 +154,14 @@ def group_parameters(model_params_dict_expanded):
     return model_params_dict_flat
 
 
+def _label_order(item):
+    """Sort key for labelled parameters: text first, type numbers as numbers."""
+    label, _ = item
+    return [
+        int(part) if part.isdigit() else part for part in re.split(r"(\d+)", label)
+    ]
+
+
 def dict_to_namedtuple_params(dictionary):
     """Coverts non-nested dictionary to namedtuple"""
 
-- 
2.43.0


From beccd140c5d0c9338ae5b6bdbcedd284988915b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:38 +0000
Subject: [PATCH 5/5] fix: use the simulation's consumption floor in the
 solution

---
 soepy/solve/emaxs.py            | 2 +-
 soepy/solve/validation_solve.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/soepy/solve/emaxs.py b/soepy/solve/emaxs.py
index a3a43b4..713aa09 100644
--- a/soepy/solve/emaxs.py
+++ b/soepy/solve/emaxs.py
@@ -43,7 +43,7 @@ def _get_max_aggregated_utilities(
         child_costs = child_care_costs[child_care_bin, j - 1]
 
         consumption = (net_income + child_benefits - child_costs).clip(
-            min=1e-14
+            min=jnp.finfo(float).eps
         ) / equivalence
         consumption_utility = consumption**mu / mu
 
diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 013592e..1a763ea 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -59,7 +59,7 @@ def _get_max_aggregated_utilities(
         child_costs = child_care_costs[child_care_bin, j - 1]
 
         consumption = (net_income + child_benefits - child_costs).clip(
-            min=1e-14
+            min=jnp.finfo(float).eps
         ) / equivalence
         consumption_utility = consumption**mu / mu
 
-- 
2.43.0

