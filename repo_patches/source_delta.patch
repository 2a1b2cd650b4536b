From 8532697f63cb80c7e26f38b84de7b912b2a0af91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 01/49] fix: round binary results to the nearest integer
 instead of truncating them

---
 flixOpt/math_modeling.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 4fe7d70..0113bd7 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1017,7 +1017,10 @@ class PyomoModel(ModelingLanguage):
             else:
                 dtype = float
             # transform to np-array (fromiter() is 5-7x faster than np.array(list(...)) )
-            result = np.fromiter(raw_results, dtype=dtype)
+            result = np.fromiter(raw_results, dtype=float)
+            if variable.is_binary:  # solvers return binaries within an integrality tolerance, e.g. 0.9999999
+                result = np.rint(result)
+            result = result.astype(dtype)
             # Falls skalar:
             if len(result) == 1:
                 variable.result = result[0]
-- 
2.43.0


From 87d8ce44839a6ce537418b6e130245d5d60566a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:28 +0000
Subject: [PATCH 02/49] fix: pair each summed index with its own factor if a
 sum does not cover all indices

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 0113bd7..d5eba5a 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1132,7 +1132,7 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
-            return sum(pyomo_variable[summand.indices[j]] * summand.factor_vec[j] for j in summand.indices)
+            return sum(pyomo_variable[i] * summand.factor_vec[j] for j, i in enumerate(summand.indices))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
         if summand.length == 1:
-- 
2.43.0


From 851e4c7989bda2b6fc6a65ed202695e861aed1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 03/49] fix: close the storage cycle at the final charge state,
 not one time step before it

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index c716551..6a559ef 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -496,7 +496,7 @@ class StorageModel(ComponentModel):
             elif self.element.initial_charge_state == 'lastValueOfSim':
                 # eq: Q_Ladezustand(1) - Q_Ladezustand(end) = 0;
                 eq_initial.add_summand(self.charge_state, 1, system_model.indices[0])
-                eq_initial.add_summand(self.charge_state, -1, system_model.indices[-1])
+                eq_initial.add_summand(self.charge_state, -1, indices_charge_state[-1])
             else:
                 raise Exception(f'initial_charge_state has undefined value: {self.element.initial_charge_state}')
                 # TODO: Validation in Storage Class, not in Model
-- 
2.43.0


From 71d606ebb9e3d371fc627ae0defe4f067402b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 04/49] fix: respect the bounds of the final charge state also
 if the initial charge state is free

---
 flixOpt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 6a559ef..af61abe 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -480,9 +480,8 @@ class StorageModel(ComponentModel):
             self.sub_models.append(self._investment)
             self._investment.do_modeling(system_model)
 
-        # Initial charge state
-        if self.element.initial_charge_state is not None:
-            self._model_initial_and_final_charge_state(system_model)
+        # Initial and final charge state
+        self._model_initial_and_final_charge_state(system_model)
 
     def _model_initial_and_final_charge_state(self, system_model):
         indices_charge_state = range(system_model.indices.start, system_model.indices.stop + 1)  # additional
-- 
2.43.0


From 0ac7571bf1a032f80884113dc4e8793686698ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 05/49] fix: allow absolute_losses of 0 in Transmission

---
 flixOpt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index af61abe..3302836 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -364,7 +364,7 @@ class TransmissionModel(ComponentModel):
         efficiency = 1 if self.element.relative_losses is None else (1 - self.element.relative_losses.active_data)
         eq_transmission.add_summand(in_flow.model.flow_rate, efficiency)
         eq_transmission.add_summand(out_flow.model.flow_rate, -1)
-        if self.element.absolute_losses is not None:
+        if self.element.absolute_losses is not None and np.any(self.element.absolute_losses.active_data != 0):
             eq_transmission.add_summand(in_flow.model._on.on, -1 * self.element.absolute_losses.active_data)
         return eq_transmission
 
-- 
2.43.0


From 92ffd216f44eb9ffc8f1de549ab6e6820e57b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 06/49] fix: run the plausibility checks of Transmission

---
 flixOpt/components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 3302836..2c4802c 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -290,6 +290,7 @@ class Transmission(Component):
 
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
+        self._plausibility_checks()
 
     def _plausibility_checks(self):
         # check buses:
-- 
2.43.0


From 1e2735fd44ac6649457bc5691ad423517771f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 07/49] fix: run the plausibility checks of Bus

---
 flixOpt/elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index e2402d6..089f566 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -114,6 +114,7 @@ class Bus(Element):
         self.excess_penalty_per_flow_hour = excess_penalty_per_flow_hour
         self.inputs: List[Flow] = []
         self.outputs: List[Flow] = []
+        self._plausibility_checks()
 
     def create_model(self) -> 'BusModel':
         self.model = BusModel(self)
@@ -133,7 +134,7 @@ class Bus(Element):
         self.outputs.append(flow)
 
     def _plausibility_checks(self) -> None:
-        if self.excess_penalty_per_flow_hour == 0:
+        if np.all(self.excess_penalty_per_flow_hour == 0):
             logger.warning(f'In Bus {self.label}, the excess_penalty_per_flow_hour is 0. Use "None" or a value > 0.')
 
     @property
-- 
2.43.0


From 07798fad0f71d6db3b3b6661d89be28ee4d61cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 08/49] fix: build the conversion equations in the order of the
 flows, not in set order

---
 flixOpt/components.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 2c4802c..87a5751 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -3,7 +3,7 @@ This module contains the basic components of the flixOpt framework.
 """
 
 import logging
-from typing import Dict, List, Literal, Optional, Set, Tuple, Union
+from typing import Dict, List, Literal, Optional, Tuple, Union
 
 import numpy as np
 
@@ -381,9 +381,6 @@ class LinearConverterModel(ComponentModel):
 
         # conversion_factors:
         if self.element.conversion_factors:
-            all_input_flows = set(self.element.inputs)
-            all_output_flows = set(self.element.outputs)
-
             # für alle linearen Gleichungen:
             for i, conversion_factor in enumerate(self.element.conversion_factors):
                 # erstelle Gleichung für jedes t:
@@ -391,9 +388,8 @@ class LinearConverterModel(ComponentModel):
                 # left = in1.flow_rate[t] * factor_in1[t] + in2.flow_rate[t] * factor_in2[t] + ...
                 # right = out1.flow_rate[t] * factor_out1[t] + out2.flow_rate[t] * factor_out2[t] + ...
                 # eq: left = right
-                used_flows = set(conversion_factor.keys())
-                used_inputs: Set = all_input_flows & used_flows
-                used_outputs: Set = all_output_flows & used_flows
+                used_inputs = [flow for flow in self.element.inputs if flow in conversion_factor]
+                used_outputs = [flow for flow in self.element.outputs if flow in conversion_factor]
 
                 eq_conversion = create_equation(f'conversion_{i}', self)
                 for flow in used_inputs:
-- 
2.43.0


From 77585c461c9e422b605a1164845dbf5353ada326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 09/49] fix: take a size of 0 as 0 instead of as missing

---
 flixOpt/elements.py  | 2 +-
 flixOpt/features.py  | 4 ++--
 flixOpt/interface.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 089f566..062ae54 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -218,7 +218,7 @@ class Flow(Element):
             previous flow rate of the component.
         """
         super().__init__(label, meta_data=meta_data)
-        self.size = size or CONFIG.modeling.BIG  # Default size
+        self.size = size if size is not None else CONFIG.modeling.BIG  # Default size
         self.relative_minimum = relative_minimum
         self.relative_maximum = relative_maximum
         self.fixed_relative_profile = fixed_relative_profile
diff --git a/flixOpt/features.py b/flixOpt/features.py
index f05d7d2..60d9cfc 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -60,7 +60,7 @@ class InvestmentModel(ElementModel):
 
     def do_modeling(self, system_model: SystemModel):
         invest_parameters = self._invest_parameters
-        if invest_parameters.fixed_size and not invest_parameters.optional:
+        if invest_parameters.fixed_size is not None and not invest_parameters.optional:
             self.size = create_variable('size', self, 1, fixed_value=invest_parameters.fixed_size)
         else:
             lower_bound = 0 if invest_parameters.optional else invest_parameters.minimum_size
@@ -117,7 +117,7 @@ class InvestmentModel(ElementModel):
             self._segments.do_modeling(system_model)
 
     def _create_bounds_for_optional_investment(self, system_model: SystemModel):
-        if self._invest_parameters.fixed_size:
+        if self._invest_parameters.fixed_size is not None:
             # eq: investment_size = isInvested * fixed_size
             eq_is_invested = create_equation('is_invested', self, 'eq')
             eq_is_invested.add_summand(self.size, -1)
diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index 17ac02b..fbf7c8f 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -76,7 +76,7 @@ class InvestParameters(Interface):
         self.specific_effects: EffectValuesInvest = specific_effects or {}
         self.effects_in_segments = effects_in_segments
         self._minimum_size = minimum_size
-        self._maximum_size = maximum_size or CONFIG.modeling.BIG  # default maximum
+        self._maximum_size = maximum_size if maximum_size is not None else CONFIG.modeling.BIG  # default maximum
 
     def transform_data(self):
         from .effects import as_effect_dict
@@ -87,11 +87,11 @@ class InvestParameters(Interface):
 
     @property
     def minimum_size(self):
-        return self.fixed_size or self._minimum_size
+        return self.fixed_size if self.fixed_size is not None else self._minimum_size
 
     @property
     def maximum_size(self):
-        return self.fixed_size or self._maximum_size
+        return self.fixed_size if self.fixed_size is not None else self._maximum_size
 
 
 class OnOffParameters(Interface):
-- 
2.43.0


From b10a615572f85f100e95147c57134a8e2d37cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 10/49] fix: let flows and storages stay at 0 if their optional
 investment is not made

---
 flixOpt/components.py | 3 +++
 flixOpt/elements.py   | 6 ++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index 87a5751..dff9d27 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -432,6 +432,9 @@ class StorageModel(ComponentModel):
         super().do_modeling(system_model)
 
         lb, ub = self.absolute_charge_state_bounds
+        capacity = self.element.capacity_in_flow_hours
+        if isinstance(capacity, InvestParameters) and capacity.optional:
+            lb = 0  # an optional investment can be left out
         self.charge_state = create_variable(
             'charge_state', self, system_model.nr_of_time_steps + 1, lower_bound=lb, upper_bound=ub
         )
diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 062ae54..98edc5e 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -289,7 +289,7 @@ class Flow(Element):
     @property
     def invest_is_optional(self) -> bool:
         # Wenn kein InvestParameters existiert: # Investment ist nicht optional -> Keine Variable --> False
-        return False if (isinstance(self.size, InvestParameters) and not self.size.optional) else True
+        return isinstance(self.size, InvestParameters) and self.size.optional
 
 
 class FlowModel(ElementModel):
@@ -308,7 +308,9 @@ class FlowModel(ElementModel):
             'flow_rate',
             self,
             system_model.nr_of_time_steps,
-            lower_bound=self.absolute_flow_rate_bounds[0] if self.element.on_off_parameters is None else 0,
+            lower_bound=self.absolute_flow_rate_bounds[0]
+            if self.element.on_off_parameters is None and not self.element.invest_is_optional
+            else 0,  # an optional investment can be left out
             upper_bound=self.absolute_flow_rate_bounds[1] if self.element.on_off_parameters is None else None,
             previous_values=self.element.previous_flow_rate,
         )
-- 
2.43.0


From c78edf3d3b00378c8d8ef2e901bc2e1f1e17337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 11/49] fix: combine scalar previous values of several flows
 into one previous on-state

---
 flixOpt/features.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 60d9cfc..995a623 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -563,11 +563,8 @@ class OnOffModel(ElementModel):
         if not previous_values:
             return np.array([0])
         else:  # Convert to 2D-array and compute binary on/off states
-            previous_values = np.array(previous_values)
-            if previous_values.ndim > 1:
-                return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
-            else:
-                return (~np.isclose(previous_values, 0, atol=epsilon)).astype(int)
+            previous_values = np.array([np.atleast_1d(values) for values in previous_values])
+            return np.any(~np.isclose(previous_values, 0, atol=epsilon), axis=0).astype(int)
 
     @classmethod
     def get_consecutive_duration(
-- 
2.43.0


From aefed3cc297a73fe63ecf7575e2e2610a0818001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 12/49] fix: count the previous duration from the last 0 to the
 end of the history

---
 flixOpt/features.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 995a623..98672f3 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -600,7 +600,9 @@ class OnOffModel(ElementModel):
 
         # Find the indexes where value=`0` in a 1D-array
         zero_indices = np.where(np.isclose(binary_values, 0, atol=CONFIG.modeling.EPSILON))[0]
-        length_of_last_duration = zero_indices[-1] + 1 if zero_indices.size > 0 else len(binary_values)
+        length_of_last_duration = len(binary_values) - (zero_indices[-1] + 1 if zero_indices.size > 0 else 0)
+        if length_of_last_duration == 0:  # The last value is 0
+            return 0
 
         if not np.isscalar(binary_values) and np.isscalar(dt_in_hours):
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours)
@@ -609,7 +611,7 @@ class OnOffModel(ElementModel):
             if length_of_last_duration > len(dt_in_hours):  # check that lengths are compatible
                 raise TypeError(
                     f'When trying to calculate the consecutive duration, the length of the last duration '
-                    f'({len(length_of_last_duration)}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
+                    f'({length_of_last_duration}) is longer than the dt_in_hours ({len(dt_in_hours)}), '
                     f'as {binary_values=}'
                 )
             return np.sum(binary_values[-length_of_last_duration:] * dt_in_hours[-length_of_last_duration:])
-- 
2.43.0


From 95207296db70ce09faf21b916e20701e90d06eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 13/49] fix: accept arrays as effects of OnOffParameters

---
 flixOpt/interface.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/interface.py b/flixOpt/interface.py
index fbf7c8f..d782acd 100644
--- a/flixOpt/interface.py
+++ b/flixOpt/interface.py
@@ -139,8 +139,12 @@ class OnOffParameters(Interface):
         force_switch_on : bool
             force creation of switch on variable, even if there is no switch_on_total_max
         """
-        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = effects_per_switch_on or {}
-        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = effects_per_running_hour or {}
+        self.effects_per_switch_on: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_switch_on if effects_per_switch_on is not None else {}
+        )
+        self.effects_per_running_hour: Union[EffectValues, EffectTimeSeries] = (
+            effects_per_running_hour if effects_per_running_hour is not None else {}
+        )
         self.on_hours_total_min: Skalar = on_hours_total_min
         self.on_hours_total_max: Skalar = on_hours_total_max
         self.consecutive_on_hours_min: Numeric_TS = consecutive_on_hours_min
-- 
2.43.0


From 401e4f173456230da54b96ecd41c0938c813a5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:13 +0000
Subject: [PATCH 14/49] fix: leave the effect dict of the user unchanged

---
 flixOpt/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/effects.py b/flixOpt/effects.py
index 1b359b8..160547b 100644
--- a/flixOpt/effects.py
+++ b/flixOpt/effects.py
@@ -218,7 +218,7 @@ def effect_values_to_time_series(
     if nested_values is None:
         return None
     else:
-        standard_value = nested_values.pop(None, None)
+        standard_value = nested_values.get(None)  # keep the dict of the user as it is
         transformed_values = nested_values_to_time_series(nested_values, label_suffix, parent_element)
         if standard_value is not None:
             transformed_values[None] = _create_time_series(
-- 
2.43.0


From a68e1dd4e7c8f749cf0e338728ed41a981058d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 15/49] fix: interpret last_time_step_hours as hours

---
 flixOpt/flow_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index 42c2fbe..cf382ca 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -55,7 +55,10 @@ class FlowSystem:
         self.last_time_step_hours = (
             self.time_series[-1] - self.time_series[-2] if last_time_step_hours is None else last_time_step_hours
         )
-        self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + self.last_time_step_hours)
+        last_time_step = self.last_time_step_hours
+        if not isinstance(last_time_step, np.timedelta64):
+            last_time_step = np.timedelta64(round(last_time_step * 3600 * 1e6), 'us')
+        self.time_series_with_end = np.append(self.time_series, self.time_series[-1] + last_time_step)
         self.previous_dt_in_hours: Union[int, float, np.ndarray] = (
             ((self.time_series[1] - self.time_series[0]) / np.timedelta64(1, 'h'))
             if previous_dt_in_hours is None
-- 
2.43.0


From 6a3676204502e569451a760e915dfdcce35866b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 16/49] fix: list the flows of a FlowSystem in the order of its
 components, not in set order

---
 flixOpt/flow_system.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index cf382ca..c40c107 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -279,8 +279,7 @@ class FlowSystem:
 
     @property
     def flows(self) -> Dict[str, Flow]:
-        set_of_flows = {flow for comp in self.components.values() for flow in comp.inputs + comp.outputs}
-        return {flow.label_full: flow for flow in set_of_flows}
+        return {flow.label_full: flow for comp in self.components.values() for flow in comp.inputs + comp.outputs}
 
     @property
     def buses(self) -> Dict[str, Bus]:
-- 
2.43.0


From bf9eb26274431854135bd25db1790ecd33e07375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 17/49] fix: reject labels that are used by several effects,
 components, flows or buses

---
 flixOpt/elements.py    | 2 ++
 flixOpt/flow_system.py | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index 98edc5e..d6a726e 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -63,6 +63,8 @@ class Component(Element):
         self.prevent_simultaneous_flows: List['Flow'] = prevent_simultaneous_flows or []
 
         self.flows: Dict[str, Flow] = {flow.label: flow for flow in self.inputs + self.outputs}
+        if len(self.flows) != len(self.inputs + self.outputs):
+            raise Exception(f'The labels of the flows of Component {self.label} are not unique!')
 
     def create_model(self) -> 'ComponentModel':
         self.model = ComponentModel(self)
diff --git a/flixOpt/flow_system.py b/flixOpt/flow_system.py
index c40c107..2bc0211 100644
--- a/flixOpt/flow_system.py
+++ b/flixOpt/flow_system.py
@@ -75,6 +75,7 @@ class FlowSystem:
     def add_effects(self, *args: Effect) -> None:
         for new_effect in list(args):
             logger.info(f'Registered new Effect: {new_effect.label}')
+            self._check_if_element_is_unique(new_effect)
             self.effect_collection.add_effect(new_effect)
 
     def add_components(self, *args: Component) -> None:
@@ -222,11 +223,16 @@ class FlowSystem:
         element : Element
             new element to check
         """
-        if element in self.all_elements:
+        if element in self.all_elements.values():
             raise Exception(f'Element {element.label} already added to FlowSystem!')
         # check if name is already used:
         if element.label_full in self.all_elements:
             raise Exception(f'Label of Element {element.label} already used in another element!')
+        if isinstance(element, Component):  # The buses of a component are added together with it
+            all_elements = {**self.all_elements, element.label_full: element}
+            for flow in element.inputs + element.outputs:
+                if all_elements.setdefault(flow.bus.label_full, flow.bus) is not flow.bus:
+                    raise Exception(f'Label of Bus {flow.bus.label} already used in another element!')
 
     def get_time_data_from_indices(
         self, time_indices: Optional[Union[List[int], range]] = None
-- 
2.43.0


From cdb236fac48586f10f02d9feedb0ba9292a7bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 18/49] fix: transfer the start values from the right time
 step, also if the prior segment is cut off

---
 flixOpt/calculation.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 5a7a16f..15ab9db 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -483,16 +483,15 @@ class SegmentedCalculation(Calculation):
         This function gets the last values of the previous solved segment and
         inserts them as start values for the nest segment
         """
-        final_index_of_prior_segment = -(1 + self.overlap_length)
+        # The next segment starts after segment_length steps of the prior one, which might be cut off in its overlap
+        last_time_step, final_charge_state = self.segment_length - 1, self.segment_length
         start_values_of_this_segment = {}
         for flow in self.flow_system.flows.values():
-            flow.previous_flow_rate = flow.model.flow_rate.result[
-                final_index_of_prior_segment
-            ]  # TODO: maybe more values?
+            flow.previous_flow_rate = flow.model.flow_rate.result[last_time_step]  # TODO: maybe more values?
             start_values_of_this_segment[flow.label_full] = flow.previous_flow_rate
         for comp in self.flow_system.components.values():
             if isinstance(comp, Storage):
-                comp.initial_charge_state = comp.model.charge_state.result[final_index_of_prior_segment]
+                comp.initial_charge_state = comp.model.charge_state.result[final_charge_state]
                 start_values_of_this_segment[comp.label_full] = comp.initial_charge_state
 
         self._transfered_start_values[segment_name] = start_values_of_this_segment
-- 
2.43.0


From 46f7d62d38c13216dae5440eb249e67ccc833e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 19/49] fix: respect time_indices in SegmentedCalculation

---
 flixOpt/calculation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 15ab9db..f65d16c 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -373,7 +373,7 @@ class SegmentedCalculation(Calculation):
             if self.sub_calculations:
                 self._transfer_start_values(name_of_segment)
             time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices.start}...{time_indices.stop - 1}):')
+            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
             calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
             # TODO: Add Before Values if available
             self.sub_calculations.append(calculation)
@@ -504,9 +504,10 @@ class SegmentedCalculation(Calculation):
             if isinstance(comp, Storage):
                 comp.initial_charge_state = self._original_start_values[comp]
 
-    def _get_indices(self, segment_index: int) -> range:
+    def _get_indices(self, segment_index: int) -> Union[range, List[int]]:
+        all_indices = self.time_indices if self.time_indices is not None else range(self._total_length)
         start = segment_index * self.segment_length
-        return range(start, min(start + self.segment_length + self.overlap_length, self._total_length))
+        return all_indices[start : min(start + self.segment_length + self.overlap_length, self._total_length)]
 
     @property
     def segment_length_with_overlap(self):
-- 
2.43.0


From 54605863adc9933f69dffd82b12b9a3cacb49e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 20/49] fix: restore the start values of all elements also if a
 segment fails

---
 flixOpt/calculation.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index f65d16c..e0d9bfa 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -368,29 +368,30 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
-        for i in range(self.number_of_segments):
-            name_of_segment = f'Segment_{i + 1}'
-            if self.sub_calculations:
-                self._transfer_start_values(name_of_segment)
-            time_indices = self._get_indices(i)
-            logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
-            calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
-            # TODO: Add Before Values if available
-            self.sub_calculations.append(calculation)
-            calculation.do_modeling()
-            invest_elements = [
-                model.element.label_full
-                for model in calculation.system_model.sub_models
-                if isinstance(model, InvestmentModel)
-            ]
-            if invest_elements:
-                logger.critical(
-                    f'Investments are not supported in Segmented Calculation! '
-                    f'Following elements Contain Investments: {invest_elements}'
-                )
-            calculation.solve(solver, save_results=False)
-
-        self._reset_start_values()
+        try:
+            for i in range(self.number_of_segments):
+                name_of_segment = f'Segment_{i + 1}'
+                if self.sub_calculations:
+                    self._transfer_start_values(name_of_segment)
+                time_indices = self._get_indices(i)
+                logger.info(f'{name_of_segment}. (flow_system indices {time_indices[0]}...{time_indices[-1]}):')
+                calculation = FullCalculation(name_of_segment, self.flow_system, self.modeling_language, time_indices)
+                # TODO: Add Before Values if available
+                self.sub_calculations.append(calculation)
+                calculation.do_modeling()
+                invest_elements = [
+                    model.element.label_full
+                    for model in calculation.system_model.sub_models
+                    if isinstance(model, InvestmentModel)
+                ]
+                if invest_elements:
+                    logger.critical(
+                        f'Investments are not supported in Segmented Calculation! '
+                        f'Following elements Contain Investments: {invest_elements}'
+                    )
+                calculation.solve(solver, save_results=False)
+        finally:
+            self._reset_start_values()
 
         for calc in self.sub_calculations:
             for key, value in calc.durations.items():
-- 
2.43.0


From 031519a5a432b00b9580e9785fb0e174750d90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 21/49] fix: return the results of the latest solve

---
 flixOpt/calculation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index e0d9bfa..440016f 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -166,6 +166,7 @@ class FullCalculation(Calculation):
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
         self.system_model.solve(solver)
+        self._results = None  # drop results of an earlier solve
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
         if save_results:
@@ -296,6 +297,7 @@ class AggregatedCalculation(Calculation):
         t_start = timeit.default_timer()
         solver.logfile_name = self._paths['log']
         self.system_model.solve(solver)
+        self._results = None  # drop results of an earlier solve
         self.durations['solving'] = round(timeit.default_timer() - t_start, 2)
 
         if save_results:
-- 
2.43.0


From a730bf9c8040a6169c5656180d864fc85c4564d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 22/49] fix: accept TimeSeriesData as relative_minimum and
 relative_maximum of a Flow

---
 flixOpt/elements.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/elements.py b/flixOpt/elements.py
index d6a726e..2b5aa9a 100644
--- a/flixOpt/elements.py
+++ b/flixOpt/elements.py
@@ -8,7 +8,7 @@ from typing import Dict, List, Optional, Tuple, Union
 import numpy as np
 
 from .config import CONFIG
-from .core import Numeric, Numeric_TS, Skalar
+from .core import Numeric, Numeric_TS, Skalar, TimeSeriesData
 from .effects import EffectValues, effect_values_to_time_series
 from .features import InvestmentModel, OnOffModel, PreventSimultaneousUsageModel
 from .interface import InvestParameters, OnOffParameters
@@ -261,7 +261,11 @@ class Flow(Element):
 
     def _plausibility_checks(self) -> None:
         # TODO: Incorporate into Variable? (Lower_bound can not be greater than upper bound
-        if np.any(self.relative_minimum > self.relative_maximum):
+        relative_minimum, relative_maximum = (
+            value.data if isinstance(value, TimeSeriesData) else value
+            for value in (self.relative_minimum, self.relative_maximum)
+        )
+        if np.any(relative_minimum > relative_maximum):
             raise Exception(self.label_full + ': Take care, that relative_minimum <= relative_maximum!')
 
         if (
-- 
2.43.0


From 96e874f8bac5f34a662a9982bc58cf89e910a547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 23/49] fix: accept TimeSeriesData in CoolingTower, CHP and
 HeatPumpWithSource

---
 flixOpt/linear_converters.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/flixOpt/linear_converters.py b/flixOpt/linear_converters.py
index 65e6e88..381f62d 100644
--- a/flixOpt/linear_converters.py
+++ b/flixOpt/linear_converters.py
@@ -3,12 +3,12 @@ This Module contains high-level classes to easily model a FlowSystem.
 """
 
 import logging
-from typing import Dict, Optional
+from typing import Callable, Dict, Optional
 
 import numpy as np
 
 from .components import LinearConverter
-from .core import Numeric_TS, TimeSeriesData
+from .core import Numeric, Numeric_TS, TimeSeriesData
 from .elements import Flow
 from .interface import OnOffParameters
 
@@ -167,7 +167,7 @@ class CoolingTower(LinearConverter):
             label,
             inputs=[P_el, Q_th],
             outputs=[],
-            conversion_factors=[{P_el: 1, Q_th: -specific_electricity_demand}],
+            conversion_factors=[{P_el: 1, Q_th: _apply(specific_electricity_demand, lambda data: -data)}],
             on_off_parameters=on_off_parameters,
             meta_data=meta_data,
         )
@@ -232,7 +232,7 @@ class CHP(LinearConverter):
 
         check_bounds(eta_th, 'eta_th', self.label_full, 0, 1)
         check_bounds(eta_el, 'eta_el', self.label_full, 0, 1)
-        check_bounds(eta_el + eta_th, 'eta_th+eta_el', self.label_full, 0, 1)
+        check_bounds(_data_of(eta_el) + _data_of(eta_th), 'eta_th+eta_el', self.label_full, 0, 1)
 
 
 class HeatPumpWithSource(LinearConverter):
@@ -265,7 +265,7 @@ class HeatPumpWithSource(LinearConverter):
 
         # super:
         electricity = {P_el: COP, Q_th: 1}
-        heat_source = {Q_ab: COP / (COP - 1), Q_th: 1}
+        heat_source = {Q_ab: _apply(COP, lambda data: data / (data - 1)), Q_th: 1}
 
         super().__init__(
             label,
@@ -284,6 +284,18 @@ class HeatPumpWithSource(LinearConverter):
         check_bounds(COP, 'eta_th', self.label_full, 1, 20)
 
 
+def _data_of(value: Numeric_TS) -> Numeric:
+    """Returns the numeric data of a value"""
+    return value.data if isinstance(value, TimeSeriesData) else value
+
+
+def _apply(value: Numeric_TS, function: Callable[[Numeric], Numeric]) -> Numeric_TS:
+    """Applies a function to the numeric data of a value. Keeps the aggregation information of TimeSeriesData"""
+    if isinstance(value, TimeSeriesData):
+        return TimeSeriesData(function(value.data), agg_group=value.agg_group, agg_weight=value.agg_weight)
+    return function(value)
+
+
 def check_bounds(
     value: Numeric_TS, parameter_label: str, element_label: str, lower_bound: Numeric_TS, upper_bound: Numeric_TS
 ):
-- 
2.43.0


From 847acc7cedaa3ff33ca33daff77296854b87ba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 24/49] fix: include the inequations of sub models in the
 overview of an element model

---
 flixOpt/structure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 1196e75..0309a0f 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -421,9 +421,9 @@ class ElementModel:
         all_vars, all_eqs, all_ineqs = self.all_variables, self.all_equations, self.all_inequations
         return {
             'no of Euations': len(all_eqs),
-            'no of Equations single': sum(eq.nr_of_single_equations for eq in all_eqs.values()),
+            'no of Equations single': sum(eq.length for eq in all_eqs.values()),
             'no of Inequations': len(all_ineqs),
-            'no of Inequations single': sum(ineq.nr_of_single_equations for ineq in all_ineqs.values()),
+            'no of Inequations single': sum(ineq.length for ineq in all_ineqs.values()),
             'no of Variables': len(all_vars),
             'no of Variables single': sum(var.length for var in all_vars.values()),
         }
@@ -470,9 +470,10 @@ class ElementModel:
     def all_inequations(self) -> Dict[str, Inequation]:
         all_ineqs = self.inequations.copy()
         for sub_model in self.sub_models:
-            for key in sub_model.all_inequations:
+            for key, value in sub_model.all_inequations.items():
                 if key in all_ineqs:
                     raise KeyError(f"Duplicate key found: '{key}' in both main model and submodel!")
+                all_ineqs[key] = value
         return all_ineqs
 
     @property
-- 
2.43.0


From 8da0e8f35701ebcc2ef212398df030c21a53b9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 25/49] fix: include inequations in the unstructured
 description of constraints

---
 flixOpt/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 0309a0f..bad260d 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -414,7 +414,7 @@ class ElementModel:
 
             return descriptions
         else:
-            return [eq.description() for eq in self.all_equations.values()]
+            return [constr.description() for constr in self.all_constraints.values()]
 
     @property
     def overview_of_model_size(self) -> Dict[str, int]:
-- 
2.43.0


From e3568d124e5f1d9917dbe238b9a92e90487410a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:41 +0000
Subject: [PATCH 26/49] fix: count the constraints of a SystemModel

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index d5eba5a..f1cb11f 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -570,7 +570,7 @@ class MathModel:
 
     @property
     def nr_of_constraints(self) -> int:
-        return len(self._constraints)
+        return len(self.equations) + len(self.inequations)
 
     @property
     def nr_of_equations(self) -> int:
-- 
2.43.0


From ca4a21761a3ed0f2a279a1a878892b7f939a6df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 27/49] fix: respect solver_output_to_console and a missing log
 file in HighsSolver

---
 flixOpt/math_modeling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index f1cb11f..e13595c 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -873,14 +873,14 @@ class HighsSolver(Solver):
             self._solver.highs_options = {
                 'mip_rel_gap': self.mip_gap,
                 'time_limit': self.time_limit_seconds,
-                'log_file': str(self.logfile_name),
+                'log_file': str(self.logfile_name) if self.logfile_name is not None else '',
                 # "log_to_console": self.solver_output_to_console,
                 'threads': self.threads,
                 'parallel': 'on',
                 'presolve': 'on',
                 'output_flag': True,
             }
-            self._solver.config.stream_solver = True
+            self._solver.config.stream_solver = self.solver_output_to_console
 
             self._results = self._solver.solve(
                 modeling_language.model
-- 
2.43.0


From 722a66676b1e2169d305d613997a695c7f4e9607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 28/49] fix: merge a user config with the default config

---
 flixOpt/config.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flixOpt/config.py b/flixOpt/config.py
index 5ba7dec..394257d 100644
--- a/flixOpt/config.py
+++ b/flixOpt/config.py
@@ -102,14 +102,14 @@ class CONFIG:
         # Default config file
         default_config_path = os.path.join(os.path.dirname(__file__), 'config.yaml')
 
-        if user_config_file is None:
-            with open(default_config_path, 'r') as file:
-                new_config = yaml.safe_load(file)
-        elif not os.path.exists(user_config_file):
-            raise FileNotFoundError(f'Config file not found: {user_config_file}')
-        else:
+        with open(default_config_path, 'r') as file:
+            new_config = yaml.safe_load(file)
+
+        if user_config_file is not None:
+            if not os.path.exists(user_config_file):
+                raise FileNotFoundError(f'Config file not found: {user_config_file}')
             with open(user_config_file, 'r') as user_file:
-                new_config = yaml.safe_load(user_file)
+                new_config = merge_configs(new_config, yaml.safe_load(user_file) or {})
 
         # Convert the merged config to ConfigSchema
         config_data = dataclass_from_dict_with_validation(ConfigSchema, new_config)
-- 
2.43.0


From a042c67ce350f84cbc37341ce97dd61682df7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 29/49] fix: leave the passed data unchanged when plotting
 areas, and keep the order of its columns

---
 flixOpt/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index b377114..8f46b12 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -120,11 +120,11 @@ def with_plotly(
                 )
             )
     elif mode == 'area':
-        data[(data > -1e-5) & (data < 1e-5)] = 0  # Preventing issues with plotting
+        data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting. Leaves the passed data as is
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
         negative_columns = list(data.columns[(data <= 0).all()])
-        mixed_columns = list(set(data.columns) - set(positive_columns + negative_columns))
+        mixed_columns = [column for column in data.columns if column not in positive_columns + negative_columns]
         if mixed_columns:
             logger.warning(
                 f'Data for plotting stacked lines contains columns with both positive and negative values:'
-- 
2.43.0


From dc24469a68942c8695e6bab2cf975efe54d04d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 30/49] fix: label the 15min steps of a heatmap with minutes

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 8f46b12..525bbaa 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -565,7 +565,7 @@ def heat_map_data_from_df(
         ('W', 'D'): ('%Y-w%W', '%w_%A'),  # week and day of week (with prefix for proper sorting)
         ('W', 'h'): ('%Y-w%W', '%w_%A %H:00'),
         ('D', 'h'): ('%Y-%m-%d', '%H:00'),  # Day and hour
-        ('D', '15min'): ('%Y-%m-%d', '%H:%MM'),  # Day and hour
+        ('D', '15min'): ('%Y-%m-%d', '%H:%M'),  # Day and hour
         ('h', '15min'): ('%Y-%m-%d %H:00', '%M'),  # minute of hour
         ('h', 'min'): ('%Y-%m-%d %H:00', '%M'),  # minute of hour
     }
-- 
2.43.0


From 178015b6431b7762e5ed9ab3f27469e96fe9d914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 31/49] fix: keep the arguments for preventing simultaneous
 flows, so that they appear in the infos

---
 flixOpt/components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/components.py b/flixOpt/components.py
index dff9d27..66cb95e 100644
--- a/flixOpt/components.py
+++ b/flixOpt/components.py
@@ -209,6 +209,7 @@ class Storage(Component):
         self.eta_charge: Numeric_TS = eta_charge
         self.eta_discharge: Numeric_TS = eta_discharge
         self.relative_loss_per_hour: Numeric_TS = relative_loss_per_hour
+        self.prevent_simultaneous_charge_and_discharge = prevent_simultaneous_charge_and_discharge
 
     def create_model(self) -> 'StorageModel':
         self.model = StorageModel(self)
@@ -290,6 +291,7 @@ class Transmission(Component):
 
         self.relative_losses = relative_losses
         self.absolute_losses = absolute_losses
+        self.prevent_simultaneous_flows_in_both_directions = prevent_simultaneous_flows_in_both_directions
         self._plausibility_checks()
 
     def _plausibility_checks(self):
-- 
2.43.0


From d51b8ed2e09e10f8fc7dda44753f392300285e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:36 +0000
Subject: [PATCH 32/49] fix: keep the time series of a segmented calculation
 whose last segment has a single time step

---
 flixOpt/calculation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 440016f..8ccc5cd 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -582,7 +582,9 @@ def _combine_nested_arrays(
         if all(isinstance(val, dict) for val in values):  # If all values are dictionaries, recursively combine each key
             return {key: combine_arrays_recursively(*(val[key] for val in values)) for key in values[0]}
 
-        if all(isinstance(val, np.ndarray) for val in values):
+        if any(isinstance(val, np.ndarray) for val in values) and all(
+            isinstance(val, np.ndarray) or np.isscalar(val) for val in values
+        ):
 
             def limit(idx: int, arr: np.ndarray) -> np.ndarray:
                 # Performs the trimming of the arrays. Doesn't trim the last array!
@@ -593,7 +595,8 @@ def _combine_nested_arrays(
                 return arr
 
             values: List[np.ndarray]
-            return np.concatenate([limit(idx, arr) for idx, arr in enumerate(values)])
+            # The result of a segment with a single time step is a scalar
+            return np.concatenate([limit(idx, np.atleast_1d(arr)) for idx, arr in enumerate(values)])
 
         else:  # Ignore non-array values
             return None
-- 
2.43.0


From 22d02fe1623c93c1956ce8ac2842ecc8df23544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 33/49] fix: drop the segments of an earlier run before a
 segmented calculation is solved again

---
 flixOpt/calculation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 8ccc5cd..33fb052 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -370,6 +370,10 @@ class SegmentedCalculation(Calculation):
         logger.info(f'{" Segmented Solving ":#^80}')
         self._define_path_names(save_results)
 
+        # Drop the segments of an earlier run
+        self.sub_calculations = []
+        self._transfered_start_values = {}
+
         try:
             for i in range(self.number_of_segments):
                 name_of_segment = f'Segment_{i + 1}'
-- 
2.43.0


From 629e4a17c0c010b14985d620f539749939da6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 34/49] fix: an aggregated calculation in which no typical
 period repeats has nothing to equate

---
 flixOpt/aggregation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d2869d9..d0d0b5c 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -364,6 +364,8 @@ class AggregationModel(ElementModel):
             components = [component for component in self.components_to_clusterize]
 
         indices = self.aggregation_data.get_equation_indices(skip_first_index_of_period=True)
+        if len(indices[0]) == 0:  # No typical period is used more than once. There is nothing to equate
+            return
 
         for component in components:
             if isinstance(component, Storage) and not self.aggregation_parameters.fix_storage_flows:
-- 
2.43.0


From c3188a10f3106c728ce3fd9eb2bf7e1a7065afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 35/49] fix: accept a pathlib.Path as path of a storage plot
 that is shown

---
 flixOpt/results.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index d88ea6c..9266231 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -351,6 +351,7 @@ class CalculationResults:
 
         if path == 'auto':
             path = self.folder / f'{title} ({mode}).html'
+        if isinstance(path, pathlib.Path):
             path = path.as_posix()
         if show:
             plotly.offline.plot(fig, filename=path)
-- 
2.43.0


From cb00d822f296e938de0dd47b6df9ca4503eff29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 36/49] fix: keep the passed figure if there is no data to add
 to it

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 525bbaa..1ef8b98 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -79,7 +79,7 @@ def with_plotly(
     """
     assert mode in ['bar', 'line', 'area'], f"'mode' must be one of {['bar', 'line', 'area']}"
     if data.empty:
-        return go.Figure()
+        return fig if fig is not None else go.Figure()
     if isinstance(colors, str):
         colorscale = px.colors.get_colorscale(colors)
         colors = px.colors.sample_colorscale(
-- 
2.43.0


From 84c4904aa2fb166eb89923bdc3ba136f81fe2d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 37/49] fix: draw a column of zeros once in an area plot

---
 flixOpt/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 1ef8b98..2858602 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -123,7 +123,7 @@ def with_plotly(
         data = data.mask((data > -1e-5) & (data < 1e-5), 0)  # Preventing issues with plotting. Leaves the passed data as is
         # Split columns into positive, negative, and mixed categories
         positive_columns = list(data.columns[(data >= 0).all()])
-        negative_columns = list(data.columns[(data <= 0).all()])
+        negative_columns = list(data.columns[(data <= 0).all() & ~(data >= 0).all()])
         mixed_columns = [column for column in data.columns if column not in positive_columns + negative_columns]
         if mixed_columns:
             logger.warning(
-- 
2.43.0


From 5df8f28a343074503c0121e56ac66bba5def209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 38/49] fix: return the network also if it is saved or shown

---
 flixOpt/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/plotting.py b/flixOpt/plotting.py
index 2858602..02d88dd 100644
--- a/flixOpt/plotting.py
+++ b/flixOpt/plotting.py
@@ -710,3 +710,5 @@ def visualize_network(
             logger.warning(
                 f'Showing the network in the Browser went wrong. Open it manually. Its saved under {path}: {e}'
             )
+
+    return net
-- 
2.43.0


From 99ff4f0137601a3082211b7f437fee7bc1a5453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 39/49] fix: keep elements without variables in the combined
 arrays of a segmented calculation, so that they can be loaded

---
 flixOpt/calculation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 33fb052..1362d48 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -584,7 +584,10 @@ def _combine_nested_arrays(
         *values: Union[Numeric, Dict[str, Numeric], Any],
     ) -> Optional[Union[np.ndarray, Dict[str, Union[np.ndarray, dict]]]]:
         if all(isinstance(val, dict) for val in values):  # If all values are dictionaries, recursively combine each key
-            return {key: combine_arrays_recursively(*(val[key] for val in values)) for key in values[0]}
+            combined = {key: combine_arrays_recursively(*(val[key] for val in values)) for key in values[0]}
+            combined = _remove_none_values(combined)
+            # Ignore dictionaries without arrays, but keep those that are empty anyway (Buses without variables)
+            return combined if combined or not values[0] else None
 
         if any(isinstance(val, np.ndarray) for val in values) and all(
             isinstance(val, np.ndarray) or np.isscalar(val) for val in values
@@ -605,9 +608,7 @@ def _combine_nested_arrays(
         else:  # Ignore non-array values
             return None
 
-    combined_arrays = combine_arrays_recursively(*dicts)
-    combined_arrays = _remove_none_values(combined_arrays)
-    return _remove_empty_dicts(combined_arrays)
+    return combine_arrays_recursively(*dicts) or {}
 
 
 def _combine_nested_scalars(*dicts: Dict[str, Union[Numeric, dict]]) -> Dict[str, Union[List[Skalar], dict]]:
-- 
2.43.0


From 35e94d3dddf3b5b210f873134f9fb7d194c1cae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 40/49] fix: a sum over one index counts every factor, not only
 the first

---
 flixOpt/math_modeling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index e13595c..faa824f 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -1132,6 +1132,8 @@ class PyomoModel(ModelingLanguage):
     def _summand_math_expression(self, summand: Summand, at_index: int = 0) -> 'pyo.Expression':
         pyomo_variable = self.mapping[summand.variable]
         if isinstance(summand, SumOfSummand):
+            if len(summand.indices) == 1:  # one index with every factor
+                return pyomo_variable[summand.indices[0]] * sum(summand.factor_vec)
             return sum(pyomo_variable[i] * summand.factor_vec[j] for j, i in enumerate(summand.indices))
 
         # Ausdruck für i-te Gleichung (falls Skalar, dann immer gleicher Ausdruck ausgegeben)
-- 
2.43.0


From 6e0dbad9fca33b448b162b0f811e80d2a6e54ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 41/49] fix: describing a sum with integer factors failed

---
 flixOpt/math_modeling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index faa824f..07bd45c 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -404,7 +404,7 @@ class SumOfSummand(Summand):
     def description(self, at_index=0):
         index = self.indices[at_index]
         factor = self.factor_vec[0]
-        factor_str = str(factor) if isinstance(factor, int) else f'{factor:.6}'
+        factor_str = f'{factor:.6}' if isinstance(factor, (float, np.floating)) else str(factor)
         single_summand_str = f'{factor_str} * {self.variable.label}[{index}]'
         return f'∑({("..+" if index > 0 else "")}{single_summand_str}{("+.." if index < self.variable.length else "")})'
 
-- 
2.43.0


From 1dcd8a010ab094fb5f26825323ef2d49f65f6d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 42/49] fix: describe_clusters() leaves the extreme periods of
 tsam as they are and can be called again

---
 flixOpt/aggregation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index d0d0b5c..c1b8a56 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -114,9 +114,10 @@ class Aggregation:
 
         if self.use_extreme_periods:
             # Zeitreihe rauslöschen:
-            extreme_periods = self.tsam.extremePeriods.copy()
-            for key in extreme_periods:
-                del extreme_periods[key]['profile']
+            extreme_periods = {
+                key: {name: value for name, value in period.items() if name != 'profile'}
+                for key, period in self.tsam.extremePeriods.items()
+            }
         else:
             extreme_periods = {}
 
-- 
2.43.0


From becb08be6cf192b5769d6146a1872810ba6705e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 43/49] fix: SegmentedCalculation.results() says how many
 options were chosen

---
 flixOpt/calculation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flixOpt/calculation.py b/flixOpt/calculation.py
index 1362d48..6b0af62 100644
--- a/flixOpt/calculation.py
+++ b/flixOpt/calculation.py
@@ -427,7 +427,7 @@ class SegmentedCalculation(Calculation):
         """
         options_chosen = combined_arrays + combined_scalars + individual_results
         assert options_chosen == 1, (
-            'Exactly one of the three options to retrieve the results needs to be chosen! You chose {options_chosen}!'
+            f'Exactly one of the three options to retrieve the results needs to be chosen! You chose {options_chosen}!'
         )
         all_results = {f'Segment_{i + 1}': calculation.results() for i, calculation in enumerate(self.sub_calculations)}
         if combined_arrays:
-- 
2.43.0


From 3d3e59485f23f30e8ff00053a1c757566e542d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 44/49] fix: SystemModel.solve() respects the threshold for
 excess it is given

---
 flixOpt/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index bad260d..9ead578 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -112,7 +112,9 @@ class SystemModel(MathModel):
         )
 
         for bus in self.main_results['buses with excess']:
-            logger.warning(f'A penalty occurred in Bus "{bus}"!')
+            bus_model = self.flow_system.buses[bus].model
+            if np.sum(bus_model.excess_input.result) + np.sum(bus_model.excess_output.result) > excess_threshold:
+                logger.warning(f'A penalty occurred in Bus "{bus}"!')
 
         if self.main_results['penalty'] > 10:
             logger.warning(f'A total penalty of {self.main_results["penalty"]} occurred.This might distort the results')
-- 
2.43.0


From bb01730086ed82bedf48e55aa5d16cf3ce619b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 45/49] fix: keep an explicit aggregation weight of zero

'aggregation_weight or 1' replaced a weight of 0 by 1, so a series the user wanted to leave out of the
clustering counted fully.
---
 flixOpt/aggregation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/flixOpt/aggregation.py b/flixOpt/aggregation.py
index c1b8a56..be28802 100644
--- a/flixOpt/aggregation.py
+++ b/flixOpt/aggregation.py
@@ -244,9 +244,8 @@ class TimeSeriesCollection:
         group_size = dict(Counter(groups))
         self.group_weights = {group: 1 / size for group, size in group_size.items()}
         for time_series in self.time_series_list:
-            time_series.aggregation_weight = self.group_weights.get(
-                time_series.aggregation_group, time_series.aggregation_weight or 1
-            )
+            weight = time_series.aggregation_weight if time_series.aggregation_weight is not None else 1
+            time_series.aggregation_weight = self.group_weights.get(time_series.aggregation_group, weight)
 
     def _unique_labels(self):
         """Makes sure every label of the TimeSeries in time_series_list is unique"""
-- 
2.43.0


From 15d0b639604f84d1f3ba64b7433aab101cbec2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 46/49] fix: excess of a bus is penalised in a model of a
 single time step

---
 flixOpt/features.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/flixOpt/features.py b/flixOpt/features.py
index 98672f3..87e6bbc 100644
--- a/flixOpt/features.py
+++ b/flixOpt/features.py
@@ -821,9 +821,6 @@ class SingleShareModel(ElementModel):
 
     def __init__(self, element: Element, name: str, variable: Optional[Variable], factor: Numeric, share_as_sum: bool):
         super().__init__(element, name)
-        if variable is not None:
-            assert not (variable.length == 1 and share_as_sum), 'A Variable with the length 1 cannot be summed up!'
-
         if (
             share_as_sum
             or (variable is not None and variable.length == 1)
-- 
2.43.0


From f9b6c011dd27c22b8bef8bb2d6226efac89e25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 47/49] fix: tables of results with a single time step

---
 flixOpt/results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flixOpt/results.py b/flixOpt/results.py
index 9266231..c8307db 100644
--- a/flixOpt/results.py
+++ b/flixOpt/results.py
@@ -410,7 +410,7 @@ class FlowResults(ElementResults):
         self.variables = self.all_results
 
     def to_dataframe(self, variable_name: str = 'flow_rate') -> pd.DataFrame:
-        return pd.DataFrame({variable_name: self.variables[variable_name]})
+        return pd.DataFrame({variable_name: np.atleast_1d(self.variables[variable_name])})
 
 
 class ComponentResults(ElementResults):
@@ -444,7 +444,7 @@ class ComponentResults(ElementResults):
         if output_factor is not None:
             outputs = {flow.label_full: flow.variables[variable_name] * output_factor for flow in self.outputs}
 
-        return pd.DataFrame(data={**inputs, **outputs})
+        return pd.DataFrame(data={key: np.atleast_1d(values) for key, values in {**inputs, **outputs}.items()})
 
 
 class BusResults(ElementResults):
@@ -470,7 +470,7 @@ class BusResults(ElementResults):
             if 'excess_output' in self.variables:
                 outputs['Excess Output'] = self.variables['excess_output'] * output_factor
 
-        return pd.DataFrame(data={**inputs, **outputs})
+        return pd.DataFrame(data={key: np.atleast_1d(values) for key, values in {**inputs, **outputs}.items()})
 
 
 class EffectResults(ElementResults):
-- 
2.43.0


From 94514e89c581416190c2efae283ff7855e9bfa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 48/49] fix: previous values of binaries in a model of a single
 time step

---
 flixOpt/math_modeling.py | 4 +++-
 flixOpt/structure.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index 07bd45c..ef950a6 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -35,6 +35,7 @@ class Variable:
         fixed_value: Optional[Numeric] = None,
         lower_bound: Optional[Numeric] = None,
         upper_bound: Optional[Numeric] = None,
+        previous_values: Optional[Numeric] = None,
     ):
         """
         label: full label of the variable
@@ -49,6 +50,7 @@ class Variable:
         self.fixed_value = fixed_value
         self.lower_bound = lower_bound
         self.upper_bound = upper_bound
+        self.previous_values = previous_values
 
         self.indices = range(self.length)
         self.fixed = False
@@ -111,8 +113,8 @@ class VariableTS(Variable):
             fixed_value=fixed_value,
             lower_bound=lower_bound,
             upper_bound=upper_bound,
+            previous_values=previous_values,
         )
-        self.previous_values = previous_values
 
 
 class _Constraint:
diff --git a/flixOpt/structure.py b/flixOpt/structure.py
index 9ead578..28d79cf 100644
--- a/flixOpt/structure.py
+++ b/flixOpt/structure.py
@@ -549,7 +549,9 @@ def create_variable(
         )
         logger.debug(f'Created VariableTS "{variable_label}": [{length}]')
     else:
-        var = Variable(variable_label, length, label, is_binary, fixed_value, lower_bound, upper_bound)
+        var = Variable(
+            variable_label, length, label, is_binary, fixed_value, lower_bound, upper_bound, previous_values
+        )
         logger.debug(f'Created Variable "{variable_label}": [{length}]')
     element_model.add_variables(var)
     return var
-- 
2.43.0


From 926d711ebcbd97c197ec7ddba1635b3376ddedc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:01 +0000
Subject: [PATCH 49/49] fix: description of equations without rows

---
 flixOpt/math_modeling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/flixOpt/math_modeling.py b/flixOpt/math_modeling.py
index ef950a6..103a7a8 100644
--- a/flixOpt/math_modeling.py
+++ b/flixOpt/math_modeling.py
@@ -277,6 +277,9 @@ class Equation(_Constraint):
         else:
             name, index_str = f'EQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
 
+        if self.length == 0:  # No equations, e.g. from the second time step on, if there is only one time step
+            return f'{name} [0/0]'
+
         # Summands:
         summand_strings = [summand.description(at_index) for summand in self.summands]
         all_summands_string = ' + '.join(summand_strings)
@@ -308,6 +311,9 @@ class Inequation(_Constraint):
         # Name and index as str
         name, index_str = f'INEQ {self.label}', f'[{equation_nr + 1}/{self.length}]'
 
+        if self.length == 0:  # No equations, e.g. from the second time step on, if there is only one time step
+            return f'{name} [0/0]'
+
         # Summands:
         summand_strings = [summand.description(at_index) for summand in self.summands]
         all_summands_string = ' + '.join(summand_strings)
-- 
2.43.0

