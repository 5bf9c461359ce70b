From 49338e5298b3f5cc28f4baaa19e527138247511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:11 +0000
Subject: [PATCH 1/7] fix: erziehungsgeld of part-time workers does not require
 positive child benefits

The claim already requires a baby; testing child_benefits > 0 in addition made the
solution disagree with the simulation when child benefits are configured to zero.
---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From 2444bfa87181015537c82aa5371d1846f2424db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 2/7] fix: interpolate continuation values on the configured
 experience grid

The simulation assumed an evenly spaced grid, so that with any other exp_grid the
solved values were read at the wrong experience levels.
---
 soepy/simulate/simulate_auxiliary.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..07747c2 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -139,7 +139,9 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_on_grid(
+            continuation_grid, stock[:, None], np.asarray(model_spec.exp_grid)
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -322,23 +324,26 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_on_grid(values, stock, exp_grid):
+    """Interpolate linearly along the last axis on the experience grid.
 
     Parameters
     ----------
     values : np.ndarray
         Shape (..., n_grid)
     stock : np.ndarray
-        Shape (...) matching the leading dimensions of values.
+        Shape (...) broadcastable to the leading dimensions of values.
+    exp_grid : np.ndarray
+        Increasing experience grid of shape (n_grid,), as used in the solution.
     """
 
-    n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
+    x = np.clip(stock, exp_grid[0], exp_grid[-1])
 
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(
+        np.searchsorted(exp_grid, x, side="right"), 1, exp_grid.shape[0] - 1
+    )
+    idx_lo = idx_hi - 1
+    w = (x - exp_grid[idx_lo]) / (exp_grid[idx_hi] - exp_grid[idx_lo])
 
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
-- 
2.43.0


From 4586f0c22b775c43d1ac6740bc505067e0e6e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 3/7] fix: benefits in the simulation depend on scaled wages,
 as in the solution

The solution computes earnings-related benefits from wages times elasticity_scale,
the simulation used unscaled wages.
---
 soepy/simulate/simulate_auxiliary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 07747c2..20ae318 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -208,7 +208,8 @@ def simulate_agents_over_periods(
                 income_tax_spec=model_spec.tax_params,
                 model_spec=model_spec,
                 states=state_space[idx],
-                log_wage_systematic=log_wage_agents[:, None],
+                log_wage_systematic=log_wage_agents[:, None]
+                + np.log(float(model_spec.elasticity_scale)),
                 male_wage=male_wage,
                 child_benefits=child_benefits,
                 tax_splitting=model_spec.tax_splitting,
-- 
2.43.0


From a73e083d19179602b4f651dfe54a6ad20c28a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 4/7] fix: bind type shares and preferences to the type their
 label names

Shares followed the row order of the parameter table while the preference parameters
followed the alphabetical order of their names, so reordering rows (or ten or more
types) exchanged shares between types.
---
 soepy/pre_processing/model_processing.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..90cc544 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import re
 
 import jax.numpy as jnp
 import numpy as np
@@ -49,7 +50,8 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            model_params_dict["shares"][k]
+            for k in sort_by_type([k for k in model_params_dict["shares"] if "share" in k])
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -77,6 +79,11 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def sort_by_type(names):
+    """Sort parameter names by the number of the unobserved type they end with."""
+    return sorted(names, key=lambda name: int(re.search(r"\d+$", name).group()))
+
+
 def group_parameters(model_params_dict_expanded):
     """Groups the parameters to be estimates
     in flat dictionary structure"""
@@ -139,9 +146,14 @@ def group_parameters(model_params_dict_expanded):
     for i in ["p", "f"]:
         model_params_dict_flat["theta_" + i] = np.array(
             [
-                v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
-                if "{}".format("theta_" + i) in k
+                model_params_dict_expanded["hetrg_unobs"][k]
+                for k in sort_by_type(
+                    [
+                        k
+                        for k in model_params_dict_expanded["hetrg_unobs"]
+                        if "theta_" + i in k
+                    ]
+                )
             ],
             dtype=float,
         )
-- 
2.43.0


From fcc1a855d201ba719b79fd3ee343ef508cd266ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:26 +0000
Subject: [PATCH 5/7] fix: reject parameter tables that name a type without its
 share or preferences

A missing theta was silently replaced by that of another type (indexing past
the end of the array is clamped), and a missing share removed a type and
shifted the labels of the others.
---
 soepy/pre_processing/model_processing.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 90cc544..90ce269 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -66,6 +66,9 @@ def expand_model_params_dict(model_params_dict):
         num_types = 1
         model_params_dict["hetrg_unobs"] = {}
 
+    else:
+        check_type_parameters(model_params_dict, num_types)
+
     # Assign 0 disutility to standard unobserved type
     model_params_dict["hetrg_unobs"]["theta_p0"] = 0
     model_params_dict["hetrg_unobs"]["theta_f0"] = 0
@@ -79,6 +82,21 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def check_type_parameters(model_params_dict, num_types):
+    """Each non-baseline type needs its share and both of its preference parameters."""
+    types = range(1, num_types)
+    required = {f"share_{i}" for i in types} | {
+        f"theta_{j}{i}" for i in types for j in ["p", "f"]
+    }
+    specified = {*model_params_dict["shares"], *model_params_dict["hetrg_unobs"]}
+
+    if specified != required:
+        raise ValueError(
+            "Specify the share and the preferences of each unobserved type; check "
+            f"{sorted(specified ^ required)}."
+        )
+
+
 def sort_by_type(names):
     """Sort parameter names by the number of the unobserved type they end with."""
     return sorted(names, key=lambda name: int(re.search(r"\d+$", name).group()))
-- 
2.43.0


From 6387bf3e0b42899012bdc877e736a7910a7efcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:43 +0000
Subject: [PATCH 6/7] fix: store sparse data in integers wide enough for long
 horizons

Periods and years of experience above 127 wrapped around to negative values.
---
 soepy/simulate/constants_sim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soepy/simulate/constants_sim.py b/soepy/simulate/constants_sim.py
index 705a6c3..24ca270 100644
--- a/soepy/simulate/constants_sim.py
+++ b/soepy/simulate/constants_sim.py
@@ -47,7 +47,7 @@ DATA_FORMATS_SIM = {
 }
 
 # Minimal dataset used in estimation/regressions.
-LABELS_SPARSE_INT8 = [
+LABELS_SPARSE_INT16 = [
     "Period",
     "Education_Level",
     "Lagged_Choice",
@@ -63,7 +63,7 @@ DATA_FORMATS_OTHER = {
     "Wage_Observed": float,
     "Experience_Stock": float,
 }
-LABELS_DATA_SPARSE = [*LABELS_SPARSE_INT8, *DATA_FORMATS_OTHER.keys()]
+LABELS_DATA_SPARSE = [*LABELS_SPARSE_INT16, *DATA_FORMATS_OTHER.keys()]
 
-DATA_FORMATS_INT8 = {key: np.int8 for key in LABELS_SPARSE_INT8}
-DATA_FORMATS_SPARSE = {**DATA_FORMATS_INT8, **DATA_FORMATS_OTHER}
+DATA_FORMATS_INT16 = {key: np.int16 for key in LABELS_SPARSE_INT16}
+DATA_FORMATS_SPARSE = {**DATA_FORMATS_INT16, **DATA_FORMATS_OTHER}
-- 
2.43.0


From 9133a3a6aeb4af12e613f7ac47a5a72e54aa2f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:27 +0000
Subject: [PATCH 7/7] fix: whole initial years short of an integer by rounding
 are not part-time experience

---
 soepy/simulate/initial_states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soepy/simulate/initial_states.py b/soepy/simulate/initial_states.py
index 305f17e..458ccb5 100644
--- a/soepy/simulate/initial_states.py
+++ b/soepy/simulate/initial_states.py
@@ -114,10 +114,12 @@ def lagged_choice_initial(initial_exp_years):
     - otherwise lagged_choice = 0
     """
 
+    # Products of years and increments are whole numbers only up to rounding
+    int_exp = np.rint(initial_exp_years)
+
     lagged_choice = np.zeros_like(initial_exp_years, dtype=int)
-    lagged_choice[initial_exp_years > 1] = 2
+    lagged_choice[int_exp > 1] = 2
     # Check if initial years is a float if so, assign 1 part-time
-    int_exp = initial_exp_years.astype(int)
     is_float = np.abs(initial_exp_years - int_exp) > 1e-8
     lagged_choice[is_float] = 1
     return lagged_choice
-- 
2.43.0

