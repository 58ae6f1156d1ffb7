From 1d56551905ebd0b8648afd235b68c0d4a77042a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 01/11] fix: draw all randomness of a simulation from a
 generator of its own

pyth_simulate and draw_zero_one_distributed_shocks seeded and consumed NumPy's global
generator. Concurrent simulate() calls corrupted each other's draws and every call
overwrote the caller's global random state. The draws themselves are unchanged.
---
 soepy/shared/numerical_integration.py | 12 +++++++++---
 soepy/simulate/initial_states.py      | 18 +++++++++++-------
 soepy/simulate/simulate_auxiliary.py  | 13 +++++++++----
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/soepy/shared/numerical_integration.py b/soepy/shared/numerical_integration.py
index e42ee36..b7514a4 100644
--- a/soepy/shared/numerical_integration.py
+++ b/soepy/shared/numerical_integration.py
@@ -24,16 +24,22 @@ def get_integration_draws_and_weights(model_spec):
     return draws_emax, draw_weights_emax
 
 
-def draw_zero_one_distributed_shocks(seed, num_periods, num_draws):
+def draw_zero_one_distributed_shocks(seed, num_periods, num_draws, rng=None):
     """Creates desired number of draws of a multivariate standard normal
     distribution.
 
+    The draws come from ``rng``, restarted at ``seed``, or from a generator of their
+    own. NumPy's global generator belongs to the caller and is left alone.
+
     """
-    np.random.seed(seed)
+    if rng is None:
+        rng = np.random.RandomState(seed)
+    else:
+        rng.seed(seed)
 
     mean = 0
 
     # Create draws from the standard normal distribution
-    draws = np.random.normal(mean, 1, (num_periods, num_draws))
+    draws = rng.normal(mean, 1, (num_periods, num_draws))
 
     return draws
diff --git a/soepy/simulate/initial_states.py b/soepy/simulate/initial_states.py
index 305f17e..93e4310 100644
--- a/soepy/simulate/initial_states.py
+++ b/soepy/simulate/initial_states.py
@@ -16,10 +16,11 @@ def prepare_simulation_data(
     prob_exp_pt,
     prob_exp_ft,
     biased_exp,
+    rng,
 ):
     """Draw initial conditions and precompute grid objects for simulation."""
 
-    initial_educ_level = np.random.choice(
+    initial_educ_level = rng.choice(
         model_spec.num_educ_levels, model_spec.num_agents_sim, p=prob_educ_level
     )
 
@@ -33,24 +34,24 @@ def prepare_simulation_data(
     for educ_level in range(model_spec.num_educ_levels):
         mask = initial_educ_level == educ_level
 
-        initial_child_age[mask] = np.random.choice(
+        initial_child_age[mask] = rng.choice(
             list(range(-1, model_spec.child_age_init_max + 1)),
             mask.sum(),
             p=prob_child_age[educ_level],
         )
 
-        initial_partner[mask] = np.random.binomial(
+        initial_partner[mask] = rng.binomial(
             size=mask.sum(),
             n=1,
             p=prob_partner_present[educ_level],
         )
-        initial_exp_pt[mask] = np.random.choice(
+        initial_exp_pt[mask] = rng.choice(
             list(range(0, model_spec.init_exp_max + 1)),
             mask.sum(),
             p=prob_exp_pt[educ_level],
         )
 
-        initial_exp_ft[mask] = np.random.choice(
+        initial_exp_ft[mask] = rng.choice(
             list(range(0, model_spec.init_exp_max + 1)),
             mask.sum(),
             p=prob_exp_ft[educ_level],
@@ -75,14 +76,17 @@ def prepare_simulation_data(
 
     lagged_choice = lagged_choice_initial(initial_exp_years=total_years)
 
-    unobserved_type = np.random.choice(
+    unobserved_type = rng.choice(
         np.arange(model_spec.num_types),
         model_spec.num_agents_sim,
         p=model_params.type_shares,
     )
 
     draws_sim = draw_zero_one_distributed_shocks(
-        model_spec.seed_sim, model_spec.num_periods, model_spec.num_agents_sim
+        model_spec.seed_sim,
+        model_spec.num_periods,
+        model_spec.num_agents_sim,
+        rng=rng,
     )
     draws_sim = draws_sim * float(model_params.shock_sd)
 
diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 3ddada2..6df74d7 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -38,7 +38,9 @@ def pyth_simulate(
 ):
     """Simulate agent histories under the continuous-experience model."""
 
-    np.random.seed(model_spec.seed_sim)
+    # All draws of this call come from its own generator, so that neither the caller nor
+    # a concurrent call shares the random stream.
+    rng = np.random.RandomState(model_spec.seed_sim)
 
     emaxs = np.asarray(emaxs)
     non_consumption_utilities = np.asarray(non_consumption_utilities)
@@ -52,6 +54,7 @@ def pyth_simulate(
         prob_exp_pt=prob_exp_pt,
         prob_exp_ft=prob_exp_ft,
         biased_exp=biased_exp,
+        rng=rng,
     )
 
     data_list = simulate_agents_over_periods(
@@ -69,6 +72,7 @@ def pyth_simulate(
         model_params=model_params,
         biased_exp=biased_exp,
         data_sparse=data_sparse,
+        rng=rng,
     )
 
     data = pd.concat(data_list)
@@ -99,6 +103,7 @@ def simulate_agents_over_periods(
     model_params,
     biased_exp,
     data_sparse,
+    rng,
 ):
 
     max_entry_year = np.max(model_spec.educ_years)
@@ -259,7 +264,7 @@ def simulate_agents_over_periods(
         if period == model_spec.num_periods - 1:
             child_new_age = child_current_age
         elif period <= model_spec.last_child_bearing_period:
-            kids_draw = np.random.binomial(
+            kids_draw = rng.binomial(
                 size=len(current_states),
                 n=1,
                 p=prob_child[period + 1, educ_level],
@@ -272,7 +277,7 @@ def simulate_agents_over_periods(
 
         no_partner = partner_indicator == 0
         if no_partner.any():
-            arr = np.random.binomial(
+            arr = rng.binomial(
                 size=no_partner.sum(),
                 n=1,
                 p=prob_partner[period, educ_level[no_partner], 0, 1],
@@ -281,7 +286,7 @@ def simulate_agents_over_periods(
 
         has_partner = partner_indicator == 1
         if has_partner.any():
-            sep = np.random.binomial(
+            sep = rng.binomial(
                 size=has_partner.sum(),
                 n=1,
                 p=prob_partner[period, educ_level[has_partner], 1, 0],
-- 
2.43.0


From 98bd8de2f575c7eea7f2f9b8994a001d3298222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 02/11] fix: interpolate simulated continuation values on the
 model's experience grid

The solution lives on model_spec.exp_grid, any increasing grid, but the simulator
interpolated as if that grid were uniform on [0, 1], so that agents in a model with
another grid acted on continuation values of other experience levels.
---
 soepy/simulate/simulate_auxiliary.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 6df74d7..5c13133 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -144,7 +144,9 @@ def simulate_agents_over_periods(
         # Interpolate continuation values on the experience grid.
         continuation_grid = emaxs[idx, :, :NUM_CHOICES]
         continuation_grid = np.transpose(continuation_grid, (0, 2, 1))
-        continuation_values = _interp_uniform_grid(continuation_grid, stock[:, None])
+        continuation_values = _interp_exp_grid(
+            model_spec.exp_grid, continuation_grid, stock[:, None]
+        )
 
         non_cons_util_agents = non_consumption_utilities[idx]
 
@@ -327,24 +329,29 @@ def simulate_agents_over_periods(
     return data
 
 
-def _interp_uniform_grid(values, stock):
-    """Interpolate along the last axis on a uniform [0,1] grid.
+def _interp_exp_grid(exp_grid, values, stock):
+    """Interpolate linearly along the last axis on the experience grid of the solution.
 
     Parameters
     ----------
+    exp_grid : array-like
+        Increasing experience grid, shape (n_grid,)
     values : np.ndarray
         Shape (..., n_grid)
     stock : np.ndarray
         Shape (...) matching the leading dimensions of values.
     """
 
+    exp_grid = np.asarray(exp_grid)
     n_grid = values.shape[-1]
-    u = np.clip(stock, 0.0, 1.0) * (n_grid - 1)
+    stock = np.clip(stock, 0.0, 1.0)
 
-    idx_lo = np.floor(u).astype(int)
-    idx_hi = np.minimum(idx_lo + 1, n_grid - 1)
-    w = u - idx_lo
+    idx_hi = np.clip(np.searchsorted(exp_grid, stock, side="right"), 1, n_grid - 1)
+    idx_lo = idx_hi - 1
+    w = (stock - exp_grid[idx_lo]) / (exp_grid[idx_hi] - exp_grid[idx_lo])
 
+    idx_lo = np.broadcast_to(idx_lo, values.shape[:-1])
+    idx_hi = np.broadcast_to(idx_hi, values.shape[:-1])
     take_lo = np.take_along_axis(values, idx_lo[..., None], axis=-1)[..., 0]
     take_hi = np.take_along_axis(values, idx_hi[..., None], axis=-1)[..., 0]
 
-- 
2.43.0


From 5eed92b20f0a2280dcba9713819a50d223856e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 03/11] fix: scale benefits of simulated non-employment by the
 wage elasticity scale

The solution computes wage-dependent benefits from wages including elasticity_scale,
the simulator computed them from unscaled wages. Agents weighed non-employment by
other resources than those their continuation values were computed with.
---
 soepy/simulate/simulate_auxiliary.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/soepy/simulate/simulate_auxiliary.py b/soepy/simulate/simulate_auxiliary.py
index 5c13133..db82550 100644
--- a/soepy/simulate/simulate_auxiliary.py
+++ b/soepy/simulate/simulate_auxiliary.py
@@ -213,7 +213,9 @@ def simulate_agents_over_periods(
                 income_tax_spec=model_spec.tax_params,
                 model_spec=model_spec,
                 states=state_space[idx],
-                log_wage_systematic=log_wage_agents[:, None],
+                log_wage_systematic=(
+                    log_wage_agents + np.log(model_spec.elasticity_scale)
+                )[:, None],
                 male_wage=male_wage,
                 child_benefits=child_benefits,
                 tax_splitting=model_spec.tax_splitting,
-- 
2.43.0


From ba0555db12e446ef254b3532372de30644154b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 04/11] fix: restore the working directory when soepy.test() is
 interrupted

---
 soepy/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/soepy/__init__.py b/soepy/__init__.py
index 7eec23e..495d482 100644
--- a/soepy/__init__.py
+++ b/soepy/__init__.py
@@ -12,5 +12,7 @@ def test():
     """The function allows to run the tests from inside the interpreter."""
     current_directory = os.getcwd()
     os.chdir(PACKAGE_DIR)
-    pytest.main()
-    os.chdir(current_directory)
+    try:
+        pytest.main()
+    finally:
+        os.chdir(current_directory)
-- 
2.43.0


From 2241134f74146c5f22e1deb44a5f7a56876640b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 05/11] fix: grant the solution's erziehungsgeld by the child's
 age alone

In the erziehungsgeld regime the solution paid the transfer to part-time working
mothers only if child benefits were positive, the simulator regardless of them. In a
model without child benefits both disagreed about the same household's income.
---
 soepy/solve/validation_solve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/soepy/solve/validation_solve.py b/soepy/solve/validation_solve.py
index 55238b4..013592e 100644
--- a/soepy/solve/validation_solve.py
+++ b/soepy/solve/validation_solve.py
@@ -54,7 +54,7 @@ def _get_max_aggregated_utilities(
             erziehungsgeld_inc_married,
             erziehungsgeld,
         )
-        net_income = net_income + jnp.where((child_benefits > 0) & (j == 1), eg, 0.0)
+        net_income = net_income + jnp.where(j == 1, eg, 0.0)
 
         child_costs = child_care_costs[child_care_bin, j - 1]
 
-- 
2.43.0


From 0a35e66336841eef1725e2c84e37b6cbc38403a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:05 +0000
Subject: [PATCH 06/11] fix: keep periods of long horizons intact in sparse
 output

---
 soepy/simulate/constants_sim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/soepy/simulate/constants_sim.py b/soepy/simulate/constants_sim.py
index 705a6c3..e5b7675 100644
--- a/soepy/simulate/constants_sim.py
+++ b/soepy/simulate/constants_sim.py
@@ -48,17 +48,18 @@ DATA_FORMATS_SIM = {
 
 # Minimal dataset used in estimation/regressions.
 LABELS_SPARSE_INT8 = [
-    "Period",
     "Education_Level",
     "Lagged_Choice",
-    "Experience_Part_Time",
-    "Experience_Full_Time",
     "Experience_Stock",
     "Age_Youngest_Child",
     "Choice",
 ]
 
+# Counts of periods exceed the range of int8 in models with long horizons.
 DATA_FORMATS_OTHER = {
+    "Period": np.int16,
+    "Experience_Part_Time": np.int16,
+    "Experience_Full_Time": np.int16,
     "Identifier": int,
     "Wage_Observed": float,
     "Experience_Stock": float,
-- 
2.43.0


From 5f7183b75ccdabf6f01e310be58fa279e01e59e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 07/11] fix: pair the tastes and shares of unobserved types by
 the type's number

---
 soepy/pre_processing/model_processing.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index b05e736..88834ea 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import re
 
 import jax.numpy as jnp
 import numpy as np
@@ -49,7 +50,9 @@ def expand_model_params_dict(model_params_dict):
     # Extract the values of the type shares
     try:
         type_shares_non_baseline = [
-            _ for k, _ in model_params_dict["shares"].items() if "share" in k
+            model_params_dict["shares"][k]
+            for k in sorted(model_params_dict["shares"], key=type_order)
+            if "share" in k
         ]
 
         num_types = len(type_shares_non_baseline) + 1
@@ -77,6 +80,12 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def type_order(name):
+    """Sort key that orders the parameters of unobserved types by the type's number,
+    so that type 10 follows type 9 rather than type 1."""
+    return [int(part) if part.isdigit() else part for part in re.split(r"(\d+)", name)]
+
+
 def group_parameters(model_params_dict_expanded):
     """Groups the parameters to be estimates
     in flat dictionary structure"""
@@ -139,8 +148,10 @@ def group_parameters(model_params_dict_expanded):
     for i in ["p", "f"]:
         model_params_dict_flat["theta_" + i] = np.array(
             [
-                v
-                for k, v in sorted(model_params_dict_expanded["hetrg_unobs"].items())
+                model_params_dict_expanded["hetrg_unobs"][k]
+                for k in sorted(
+                    model_params_dict_expanded["hetrg_unobs"], key=type_order
+                )
                 if "{}".format("theta_" + i) in k
             ],
             dtype=float,
-- 
2.43.0


From 9ea9332d727338dbae8407056f079082c0e6c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:43 +0000
Subject: [PATCH 08/11] fix: keep the first share non-negative when the others
 add up to one with rounding

---
 soepy/exogenous_processes/children.py    | 2 +-
 soepy/exogenous_processes/experience.py  | 2 +-
 soepy/pre_processing/model_processing.py | 5 ++++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/soepy/exogenous_processes/children.py b/soepy/exogenous_processes/children.py
index 1c0e9ab..c07a2a3 100644
--- a/soepy/exogenous_processes/children.py
+++ b/soepy/exogenous_processes/children.py
@@ -50,7 +50,7 @@ def gen_prob_child_init_age_vector(model_spec):
         child_age_shares_list = child_age_shares[
             child_age_shares.index.get_level_values("educ_level") == educ_level
         ]["child_age_shares"].to_list()
-        child_age_shares_list[0] = 1 - sum(child_age_shares_list[1:])
+        child_age_shares_list[0] = max(1 - sum(child_age_shares_list[1:]), 0)
         prob_child_age.append(child_age_shares_list)
 
     return prob_child_age
diff --git a/soepy/exogenous_processes/experience.py b/soepy/exogenous_processes/experience.py
index e8979a2..1d30f84 100644
--- a/soepy/exogenous_processes/experience.py
+++ b/soepy/exogenous_processes/experience.py
@@ -31,7 +31,7 @@ def gen_prob_init_exp_component_vector(model_spec, model_spec_exp_file_key):
         exp_shares_list = exp_shares[
             exp_shares.index.get_level_values("educ_level") == educ_level
         ]["exper_shares"].to_list()
-        exp_shares_list[0] = 1 - sum(exp_shares_list[1:])
+        exp_shares_list[0] = max(1 - sum(exp_shares_list[1:]), 0)
         init_exp.append(exp_shares_list)
 
     return init_exp
diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 88834ea..60e520e 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -59,7 +59,10 @@ def expand_model_params_dict(model_params_dict):
 
         # Aggregate type shares in list object
         # Share of baseline types equal to one minus sum of remaining type shares
-        type_shares = [1 - sum(type_shares_non_baseline)] + type_shares_non_baseline
+        # (rounding may take that sum just beyond one)
+        type_shares = [
+            max(1 - sum(type_shares_non_baseline), 0)
+        ] + type_shares_non_baseline
 
     except KeyError:
 
-- 
2.43.0


From c128cf738e1aec33497925a0142ed3f4ddc488c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 09/11] fix: refuse missing or surplus parameters of unobserved
 types

A missing taste parameter was silently replaced by that of another type
(out-of-range indexing is clamped), and shares with a gap in their numbers
were given to other types.
---
 soepy/pre_processing/model_processing.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 60e520e..87f9175 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -56,6 +56,7 @@ def expand_model_params_dict(model_params_dict):
         ]
 
         num_types = len(type_shares_non_baseline) + 1
+        check_types_complete(model_params_dict, num_types)
 
         # Aggregate type shares in list object
         # Share of baseline types equal to one minus sum of remaining type shares
@@ -83,6 +84,27 @@ def expand_model_params_dict(model_params_dict):
     return model_params_dict
 
 
+def check_types_complete(model_params_dict, num_types):
+    """Make sure that each unobserved type but the first has one share and two taste
+    parameters: those of another type must not stand in for a missing one."""
+    numbers = range(1, num_types)
+    expected = {
+        "shares": {f"share_{i}" for i in numbers},
+        "hetrg_unobs": {f"theta_{j}{i}" for j in ["p", "f"] for i in numbers},
+    }
+    for category, names in expected.items():
+        given = {
+            name
+            for name in model_params_dict.get(category, {})
+            if "share" in name or "theta" in name
+        } - {"theta_p0", "theta_f0"}
+        if given != names:
+            raise ValueError(
+                f"Parameters of unobserved types in category {category} do not match "
+                f"the {num_types} types: {sorted(given ^ names)}"
+            )
+
+
 def type_order(name):
     """Sort key that orders the parameters of unobserved types by the type's number,
     so that type 10 follows type 9 rather than type 1."""
-- 
2.43.0


From 3b517e26bd40df887717e5cffb9f35844df4f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:26 +0000
Subject: [PATCH 10/11] fix: identify rows of exogenous tables by their labels

Tables list their rows by labels, but were read by position: a table in
another row order, or one with a row occurring twice, silently gave
probabilities to other groups.
---
 soepy/exogenous_processes/children.py   |  6 +++---
 soepy/exogenous_processes/education.py  |  4 ++--
 soepy/exogenous_processes/experience.py |  5 +++--
 soepy/exogenous_processes/partner.py    |  9 +++++----
 soepy/exogenous_processes/tables.py     | 17 +++++++++++++++++
 5 files changed, 30 insertions(+), 11 deletions(-)
 create mode 100644 soepy/exogenous_processes/tables.py

diff --git a/soepy/exogenous_processes/children.py b/soepy/exogenous_processes/children.py
index c07a2a3..528f145 100644
--- a/soepy/exogenous_processes/children.py
+++ b/soepy/exogenous_processes/children.py
@@ -1,8 +1,8 @@
 """This module reads in information on probabilities regarding the exogenous
 process of childbirth."""
 import numpy as np
-import pandas as pd
 
+from soepy.exogenous_processes.tables import read_exog_table
 from soepy.shared.constants_and_indices import AGE_YOUNGEST_CHILD
 
 
@@ -21,7 +21,7 @@ def define_child_age_update_rule(model_spec, states):
 def gen_prob_child_vector(model_spec):
     """Generate probability of childbirth for each period and lagged choice."""
 
-    exog_child_info_df = pd.read_pickle(model_spec.child_info_file_name)
+    exog_child_info_df = read_exog_table(model_spec.child_info_file_name)
 
     exog_child_info_df = exog_child_info_df.iloc[
         exog_child_info_df.index.get_level_values("period") < model_spec.num_periods
@@ -43,7 +43,7 @@ def gen_prob_child_vector(model_spec):
 def gen_prob_child_init_age_vector(model_spec):
     """Generate shares of initial child ages by education level."""
 
-    child_age_shares = pd.read_pickle(model_spec.child_age_shares_file_name)
+    child_age_shares = read_exog_table(model_spec.child_age_shares_file_name)
 
     prob_child_age = []
     for educ_level in range(model_spec.num_educ_levels):
diff --git a/soepy/exogenous_processes/education.py b/soepy/exogenous_processes/education.py
index 055b92c..705aa14 100644
--- a/soepy/exogenous_processes/education.py
+++ b/soepy/exogenous_processes/education.py
@@ -1,13 +1,13 @@
 """This module reads in information on probabilities regarding the initial conditions
 on years of education"""
-import pandas as pd
+from soepy.exogenous_processes.tables import read_exog_table
 
 
 def gen_prob_educ_level_vector(model_spec):
     """Generates a vector of probabilities reflecting the fractions of individuals
     with low, middle, and high levels of education in the SOEP data."""
 
-    prob_educ_level = pd.read_pickle(model_spec.educ_shares_file_name)
+    prob_educ_level = read_exog_table(model_spec.educ_shares_file_name)
 
     prob_educ_level = list(prob_educ_level["educ_shares"])
 
diff --git a/soepy/exogenous_processes/experience.py b/soepy/exogenous_processes/experience.py
index 1d30f84..800ab92 100644
--- a/soepy/exogenous_processes/experience.py
+++ b/soepy/exogenous_processes/experience.py
@@ -16,7 +16,8 @@ No implicit defaults: the model spec must define
 ``ft_exp_shares_file_name`` and ``pt_exp_shares_file_name``.
 """
 import numpy as np
-import pandas as pd
+
+from soepy.exogenous_processes.tables import read_exog_table
 
 
 def gen_prob_init_exp_component_vector(model_spec, model_spec_exp_file_key):
@@ -24,7 +25,7 @@ def gen_prob_init_exp_component_vector(model_spec, model_spec_exp_file_key):
     ft/pt experience of 0, 1, 2, 3, and 4 years in the model's first period.
     Shares differ by the level of education of the individuals."""
 
-    exp_shares = pd.read_pickle(model_spec_exp_file_key)
+    exp_shares = read_exog_table(model_spec_exp_file_key)
 
     init_exp = []
     for educ_level in range(model_spec.num_educ_levels):
diff --git a/soepy/exogenous_processes/partner.py b/soepy/exogenous_processes/partner.py
index d096380..9ebed30 100644
--- a/soepy/exogenous_processes/partner.py
+++ b/soepy/exogenous_processes/partner.py
@@ -1,7 +1,8 @@
 """This module reads in information on probabilities regarding the exogenous
 process of marriage."""
 import numpy as np
-import pandas as pd
+
+from soepy.exogenous_processes.tables import read_exog_table
 
 
 def gen_prob_partner(model_spec):
@@ -10,7 +11,7 @@ def gen_prob_partner(model_spec):
 
     # Read data frame with information on probability to loose ones partner
     # in every period
-    exog_partner_separation_info_df = pd.read_pickle(
+    exog_partner_separation_info_df = read_exog_table(
         model_spec.partner_separation_info_file_name
     )
 
@@ -20,7 +21,7 @@ def gen_prob_partner(model_spec):
 
     # Read data frame with information on probability to get a partner
     # in every period
-    exog_partner_arrival_info_df = pd.read_pickle(
+    exog_partner_arrival_info_df = read_exog_table(
         model_spec.partner_arrival_info_file_name
     )
 
@@ -46,5 +47,5 @@ def gen_prob_partner_present_vector(model_spec):
     a partner present in the household in the model's first period.
     Shares differ by the level of education of the individuals."""
 
-    partner_shares = pd.read_pickle(model_spec.partner_shares_file_name)
+    partner_shares = read_exog_table(model_spec.partner_shares_file_name)
     return partner_shares.to_numpy().flatten()
diff --git a/soepy/exogenous_processes/tables.py b/soepy/exogenous_processes/tables.py
new file mode 100644
index 0000000..4f0cee3
--- /dev/null
+++ b/soepy/exogenous_processes/tables.py
@@ -0,0 +1,17 @@
+"""This module reads tables of exogenous processes."""
+import pandas as pd
+
+
+def read_exog_table(file_name):
+    """Read a table whose rows are identified by the labels in its index.
+
+    The rows are returned in the order of their labels, so that their order in the
+    file is irrelevant. Labels must not occur twice.
+    """
+    table = pd.read_pickle(file_name)
+
+    if table.index.has_duplicates:
+        duplicates = table.index[table.index.duplicated()].unique().to_list()
+        raise ValueError(f"Rows occur more than once in {file_name}: {duplicates}")
+
+    return table.sort_index()
-- 
2.43.0


From b9c2e73f0eba6fab667ba574e85cf75ca30d6da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 11/11] fix: compile a kept function's program once

Every call made a class of its own for its parameters. JAX took them for
another kind of input each time, compiled the solution anew and kept all
programs: ten times the time, and memory that grew by megabytes per call.
---
 soepy/pre_processing/model_processing.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/soepy/pre_processing/model_processing.py b/soepy/pre_processing/model_processing.py
index 87f9175..964841a 100644
--- a/soepy/pre_processing/model_processing.py
+++ b/soepy/pre_processing/model_processing.py
@@ -1,5 +1,6 @@
 import collections
 import copy
+import functools
 import re
 
 import jax.numpy as jnp
@@ -188,7 +189,14 @@ def group_parameters(model_params_dict_expanded):
 def dict_to_namedtuple_params(dictionary):
     """Coverts non-nested dictionary to namedtuple"""
 
-    return collections.namedtuple("model_parameters", dictionary.keys())(**dictionary)
+    return params_type(tuple(dictionary))(**dictionary)
+
+
+@functools.lru_cache(maxsize=32)
+def params_type(names):
+    """Parameters with the same names are of the same type. JAX takes parameters of
+    another type for another program, which it compiles anew and keeps forever."""
+    return collections.namedtuple("model_parameters", names)
 
 
 def read_model_spec_init(model_spec_init_dict, model_params):
-- 
2.43.0

