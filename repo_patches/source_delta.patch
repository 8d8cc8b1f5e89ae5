From 135cae1d796e5833c500e75318218bab94cd762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 1/4] fix: apply the wage elasticity scale to simulated
 out-of-work resources

The solution prices benefits of non-working women on the scaled wage; the
simulation used the unscaled one, so both disagreed whenever the scale is not 1.
---
 soepy/simulate/simulate_auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..44ebd63 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -206,7 +206,8 @@ def simulate_agents_over_periods(
                 income_tax_spec=model_spec.tax_params,
                 model_spec=model_spec,
                 states=state_space[idx],
-                log_wage_systematic=log_wage_agents[:, None],
+                log_wage_systematic=log_wage_agents[:, None]
+                + np.log(float(model_spec.elasticity_scale)),
                 male_wage=male_wage,
                 child_benefits=child_benefits,
                 tax_splitting=model_spec.tax_splitting,
-- 
2.43.0


From c3310f311b6c469414de2be679903dddcddd24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 2/4] fix: interpolate simulated continuation values on the
 experience grid of the specification

The simulation assumed an equally spaced grid on [0, 1], while exp_grid is an
input and the solution honours its spacing.
---
 soepy/simulate/simulate_auxiliary.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 44ebd63..61451d8 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -139,7 +139,11 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_on_grid(
+            np.asarray(model_spec.exp_grid, dtype=float),
+            continuation_grid,
+            stock[:, None],
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -323,11 +327,13 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_on_grid(grid, values, stock):
+    """Interpolate linearly along the last axis on the experience grid.
 
     Parameters
     ----------
+    grid : np.ndarray
+        Shape (n_grid,), strictly increasing
     values : np.ndarray
         Shape (..., n_grid)
     stock : np.ndarray
@@ -335,11 +341,11 @@ def _interp_uniform_grid(values, stock):
     """
 
     n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
+    stock = np.clip(stock, 0.0, 1.0)
 
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(np.searchsorted(grid, stock, side="right"), 1, n_grid - 1)
+    idx_lo = idx_hi - 1
+    w = (stock - grid[idx_lo]) / (grid[idx_hi] - grid[idx_lo])
 
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
-- 
2.43.0


From a5a2066d35914e775ad2a1d01941e6e30d9b0ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:36 +0000
Subject: [PATCH 3/4] fix: pay erziehungsgeld to part-time working mothers
 whatever the child benefit

The solution required a positive child benefit, the simulation and the rule for
non-working mothers do not.
---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From f84b6496a65800267b1e3e50ae36539a41ae2f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:30 +0000
Subject: [PATCH 4/4] fix: order unobserved types by their number

Names were sorted as text, so with ten or more types theta_p10 came before
theta_p2, and shares were taken in row order, pairing them with other types.
---
 soepy/pre_processing/model_processing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..810d61f 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import re
 
 import jax.numpy as jnp
 import numpy as np
@@ -49,7 +50,11 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            _
+            for k, _ in sorted(
+                model_params_dict["shares"].items(), key=lambda x: type_number(x[0])
+            )
+            if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -77,6 +82,11 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def type_number(name):
+    """Number of the unobserved type at the end of a parameter name"""
+    return int(re.search(r"\d*$", name).group() or 0)
+
+
 def group_parameters(model_params_dict_expanded):
     """Groups the parameters to be estimates
     in flat dictionary structure"""
@@ -140,7 +150,10 @@ def group_parameters(model_params_dict_expanded):
         model_params_dict_flat["theta_" + i] = np.array(
             [
                 v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
+                for k, v in sorted(
+                    model_params_dict_expanded["hetrg_unobs"].items(),
+                    key=lambda x: type_number(x[0]),
+                )
                 if "{}".format("theta_" + i) in k
             ],
             dtype=float,
-- 
2.43.0

