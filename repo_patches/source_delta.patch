From c6204fa6aabe62f185d3cf240d1c2e6adbdc8e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 01/51] fix: count lower regulation of the load side of
 bidirectional units against the enablement minimum

---
 src/nempy/spot_market_backend/fcas_constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 92328e2..2bd17fa 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -298,7 +298,7 @@ def joint_capacity_constraints(contingency_trapeziums, bidirectional_units, next
     regulation_mapping_lower_slope_load_side_of_bidirectionals = (
         regulation_mapping_lower_slope[regulation_mapping_lower_slope['unit'].isin(bidirectional_units)].copy())
     regulation_mapping_lower_slope_load_side_of_bidirectionals['dispatch_type'] = 'load'
-    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = 1.0
+    regulation_mapping_lower_slope_load_side_of_bidirectionals['coefficient'] = -1.0
 
     # Combine type_and_rhs and variable_mapping.
     type_and_rhs = pd.concat([type_and_rhs_upper_slope, type_and_rhs_lower_slope])
-- 
2.43.0


From 28f04cb662487a626b5af6ededb0b9488ccb2e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 02/51] fix: joint ramping of bidirectional units limits net
 energy when only one side offers regulation

---
 .../spot_market_backend/fcas_constraints.py      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nempy/spot_market_backend/fcas_constraints.py b/src/nempy/spot_market_backend/fcas_constraints.py
index 2bd17fa..c3858a2 100644
--- a/src/nempy/spot_market_backend/fcas_constraints.py
+++ b/src/nempy/spot_market_backend/fcas_constraints.py
@@ -16,8 +16,12 @@ def joint_ramping_constraints_raise_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = 1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
-    variable_mapping_energy['service'] = 'energy'
+    # The net energy output of the unit is what ramps, so both sides are included even if only one offers regulation.
+    variable_mapping_energy = pd.merge(
+        rhs_and_type.loc[:, ['constraint_id', 'unit']],
+        pd.DataFrame({'service': ['energy', 'energy'], 'dispatch_type': ['generator', 'load']}),
+        how='cross'
+    )
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
     return rhs_and_type, variable_mapping
@@ -36,8 +40,12 @@ def joint_ramping_constraints_lower_reg_bdu(unit_limits, dispatch_interval, next
         on="unit"
     )
     variable_mapping_reg['coefficient'] = -1.0
-    variable_mapping_energy = variable_mapping_reg.copy()
-    variable_mapping_energy['service'] = 'energy'
+    # The net energy output of the unit is what ramps, so both sides are included even if only one offers regulation.
+    variable_mapping_energy = pd.merge(
+        rhs_and_type.loc[:, ['constraint_id', 'unit']],
+        pd.DataFrame({'service': ['energy', 'energy'], 'dispatch_type': ['generator', 'load']}),
+        how='cross'
+    )
     variable_mapping_energy['coefficient'] = 1.0
     variable_mapping = pd.concat([variable_mapping_reg, variable_mapping_energy])
     return rhs_and_type, variable_mapping
-- 
2.43.0


From 7f0715d91cf0fb24d68190910027614b60bdff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 03/51] fix: keep regions without interconnectors in the
 regional dispatch summary

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index be76993..e36d1c9 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3542,10 +3542,12 @@ class SpotMarket:
             dispatch_summary = pd.merge(dispatch_summary, interconnector_inflow, how='outer', on='region')
             dispatch_summary = dispatch_summary.fillna(0.0)
             transmission_losses = self._get_transmission_losses()
-            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, transmission_losses, how='left', on='region')
+            dispatch_summary = dispatch_summary.fillna(0.0)
         if self._interconnectors_have_losses():
             interconnector_losses = self._get_interconnector_losses_by_region()
-            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, on='region')
+            dispatch_summary = pd.merge(dispatch_summary, interconnector_losses, how='left', on='region')
+            dispatch_summary = dispatch_summary.fillna(0.0)
         return dispatch_summary
 
     def _get_net_unit_dispatch_by_region(self):
-- 
2.43.0


From 926f9b260a7879ede2864b4f8bc52b1f2760e509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:43 +0000
Subject: [PATCH 04/51] fix: report transmission losses consistent with the
 demand constraints

---
 src/nempy/markets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e36d1c9..17203f1 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3659,10 +3659,12 @@ class SpotMarket:
         flows_and_losses = pd.merge(flows_and_losses, loss_factors, on=['interconnector', 'link'])
 
         def calc_losses(direction, flow, loss_factor):
-            if (direction == 'to_region' and flow >= 0.0) or (direction == 'from_region' and flow <= 0.0):
+            # Consistent with the demand constraints, where loss factor * flow arrives at the to region and
+            # loss factor * flow leaves the from region.
+            if direction == 'to_region':
                 losses = flow * (1 - loss_factor)
-            elif (direction == 'to_region' and flow < 0.0) or (direction == 'from_region' and flow > 0.0):
-                losses = abs(flow) - (abs(flow) / loss_factor)
+            else:
+                losses = flow * (loss_factor - 1)
             return losses
 
         flows_and_losses['transmission_losses'] = \
-- 
2.43.0


From de3118dc43cad4e8faf87687b1071fa776d85fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:57 +0000
Subject: [PATCH 05/51] fix: regional generic constraint terms count the load
 side of bidirectional units as negative energy

---
 src/nempy/markets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 17203f1..79830e2 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2970,6 +2970,10 @@ class SpotMarket:
                 regional_lhs = solver_interface.create_region_level_generic_constraint_lhs(generic_constraint_region,
                                                                                            generic_constraint_ids,
                                                                                            unit_bids_to_constraint_map)
+                # As with unit coefficients, the energy of the load side of bidirectional units counts as negative.
+                unit_sign = self._variable_to_constraint_map['unit_level']['bids'].set_index('variable_id')['coefficient']
+                regional_lhs['coefficient'] = \
+                    regional_lhs['coefficient'] * regional_lhs['variable_id'].map(unit_sign)
                 generic_lhs.append(regional_lhs)
             # If interconnectors have been added to the generic lhs then find the relevant variable ids and map them
             # to the constraint.
-- 
2.43.0


From ffeacdf8893a2d87177cf55b1d6814811b55fcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:17 +0000
Subject: [PATCH 06/51] fix: include joint ramping of bidirectional units in
 FCAS availability

---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 79830e2..20544d6 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3789,8 +3789,8 @@ class SpotMarket:
         """
         fcas_variable_slack = []
         for constraint_type in ['fcas_max_availability', 'joint_ramping_raise_reg', 'joint_ramping_lower_reg',
-                                'joint_capacity', 'energy_and_regulation_capacity', 'bidirectional_ramp_up',
-                                'bidirectional_ramp_down']:
+                                'joint_ramping_raise_reg_bdu', 'joint_ramping_lower_reg_bdu', 'joint_capacity',
+                                'energy_and_regulation_capacity', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
             if constraint_type in self._constraints_rhs_and_type.keys():
                 service_coefficients = self._constraint_to_variable_map['unit_level'][constraint_type]
                 service_coefficients = service_coefficients.loc[:, ['constraint_id', 'unit', 'service', 'coefficient']]
-- 
2.43.0


From 95315d307f11bef8f819e0c95cf4a6e1d564a7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:02 +0000
Subject: [PATCH 07/51] fix: price on the loss segment in use when break points
 are not evenly spaced

---
 src/nempy/markets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 20544d6..ea989f1 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3168,6 +3168,12 @@ class SpotMarket:
 
         def not_closest_three(df):
             df = df.sort_values('distance')
+            # The break points either side of the flow are always kept, if break points are not evenly spaced one of
+            # them might not be among the closest three.
+            below = df[df['break_point'] <= df['value']].index[:1]
+            above = df[df['break_point'] >= df['value']].index[:1]
+            either_side = df.index.isin(below.append(above))
+            df = pd.concat([df[either_side], df[~either_side]])
             df = df.iloc[3:, :]
             return df
 
-- 
2.43.0


From c606e2f5bae789da9e322083c5b058e91d318df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:02 +0000
Subject: [PATCH 08/51] fix: report the cost of the returned dispatch as the
 objective value

---
 src/nempy/markets.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index ea989f1..96f2547 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3146,7 +3146,12 @@ class SpotMarket:
                         self._market_constraints_rhs_and_type[constraint_group]['price'] = \
                             self._market_constraints_rhs_and_type[constraint_group]['constraint_id'].map(prices)
 
-        self.objective_value = si.mip_model.objective_value
+        # Calculated from the dispatch, the value reported by the solver can differ from the cost of the solution it
+        # returns when special ordered sets are used.
+        self.objective_value = 0.0
+        for component, costs in self._objective_function_components.items():
+            values = self._decision_variables[component].set_index('variable_id')['value']
+            self.objective_value += float((costs['cost'] * costs['variable_id'].map(values)).sum())
 
     def _get_linear_model(self, si):
         self._remove_unused_interpolation_weights(si)
-- 
2.43.0


From 318d93668d1f11a1dd141c41a6c3dd561e9ce6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:59 +0000
Subject: [PATCH 09/51] fix: create a tie break constraint for every pair of
 tied bids

---
 src/nempy/spot_market_backend/unit_constraints.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index dd9fc8d..0e5bfdc 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -566,16 +566,9 @@ def tie_break_constraints(price_bids, bid_decision_variables, unit_regions, next
     constraints = pd.merge(energy_price_bids, energy_price_bids, on=['cost', 'region', 'dispatch_type'])
     constraints = constraints[constraints['unit_x'] != constraints['unit_y']]
 
-    def make_id(unit_x, band_x, unit_y, band_y):
-        name = sorted([unit_x, str(band_x), unit_y, str(band_y)])
-        name = ''.join(name)
-        return name
-
-    constraints['name'] = \
-        constraints.apply(lambda x: make_id(x['unit_x'], x['capacity_band_x'],
-                                            x['unit_y'], x['capacity_band_y']), axis=1)
-
-    constraints = constraints.drop_duplicates('name')
+    # Each pair of bids occurs in both orders, just keep one of them.
+    constraints = constraints[constraints['variable_id_x'] < constraints['variable_id_y']]
+    constraints = constraints.drop_duplicates(['variable_id_x', 'variable_id_y'])
 
     constraints = constraints.loc[:, ['variable_id_x', 'upper_bound_x', 'variable_id_y', 'upper_bound_y']]
     constraints = hf.save_index(constraints, 'constraint_id', next_constraint_id)
-- 
2.43.0


From 3972791db6c982036565ebba2c07cf24f26d0776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:37 +0000
Subject: [PATCH 10/51] fix: setting constraints again replaces the earlier
 constraints and their violation costs

---
 src/nempy/markets.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 96f2547..588be27 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -524,6 +524,7 @@ class SpotMarket:
             self._next_constraint_id,
             self._bidirectional_units
         )
+        self._remove_constraints('unit_bid_capacity')
         self._constraints_rhs_and_type['unit_bid_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['unit_bid_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -635,6 +636,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
+        self._remove_constraints('uigf_capacity')
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -846,6 +848,9 @@ class SpotMarket:
             ramp_details, run_type, fast_start_profiles, self.dispatch_interval
         )
 
+        for constraints_key in ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
+            self._remove_constraints(constraints_key)
+
         rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
                                                               self.dispatch_interval)
         self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
@@ -1030,6 +1035,7 @@ class SpotMarket:
 
         rhs_and_type, variable_map = unit_constraints.create_fast_start_profile_constraints(
             fast_start_profiles, self._next_constraint_id)
+        self._remove_constraints('fast_start')
         if not rhs_and_type.empty:
             self._constraints_rhs_and_type['fast_start'] = rhs_and_type
             self._constraint_to_variable_map['unit_level']['fast_start'] = variable_map
@@ -1046,6 +1052,19 @@ class SpotMarket:
             del self._objective_function_components['fast_start_deficit']
             del self._lhs_coefficients['fast_start_deficit']
 
+    def _remove_constraints(self, constraints_key):
+        """Remove a group of constraints, and the variables that made them elastic, created by a previous call."""
+        self._constraints_rhs_and_type.pop(constraints_key, None)
+        self._market_constraints_rhs_and_type.pop(constraints_key, None)
+        self._constraint_to_variable_map['unit_level'].pop(constraints_key, None)
+        self._constraint_to_variable_map['regional'].pop(constraints_key, None)
+        self._remove_deficit_variables(constraints_key)
+
+    def _remove_deficit_variables(self, constraints_key):
+        self._decision_variables.pop(constraints_key + '_deficit', None)
+        self._objective_function_components.pop(constraints_key + '_deficit', None)
+        self._lhs_coefficients.pop(constraints_key + '_deficit', None)
+
     def _validate_fast_start_profiles(self, fast_start_profiles):
         schema = dv.DataFrameSchema(name='fast_start_profiles', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
@@ -1137,6 +1156,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_demand(demand)
         rhs_and_type, variable_map = market_constraints.energy(demand, self._next_constraint_id)
+        self._remove_constraints('demand')
         self._market_constraints_rhs_and_type['demand'] = rhs_and_type
         self._constraint_to_variable_map['regional']['demand'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1242,6 +1262,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
+        self._remove_constraints('fcas')
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1341,6 +1362,7 @@ class SpotMarket:
             self._validate_fcas_max_availability(fcas_max_availability)
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
                                                                             self._next_constraint_id)
+        self._remove_constraints('fcas_max_availability')
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['fcas_max_availability'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1526,6 +1548,10 @@ class SpotMarket:
             ramp_rates, run_type, fast_start_profiles, self.dispatch_interval
         )
 
+        for constraints_key in ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
+                                'joint_ramping_lower_reg_bdu']:
+            self._remove_constraints(constraints_key)
+
         ramp_up_rates_for_raise_reg = pd.merge(
             raise_reg_units,
             ramp_rates,
@@ -1722,6 +1748,7 @@ class SpotMarket:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
             contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
+        self._remove_constraints('joint_capacity')
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -1861,6 +1888,7 @@ class SpotMarket:
                 regulation_trapeziums, self._next_constraint_id
 
             )
+        self._remove_constraints('energy_and_regulation_capacity')
         self._constraints_rhs_and_type['energy_and_regulation_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['energy_and_regulation_capacity'] = variable_map
         self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
@@ -2356,6 +2384,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_generic_constraint_parameters(generic_constraint_parameters)
         type_and_rhs = hf.save_index(generic_constraint_parameters, 'constraint_id', self._next_constraint_id)
+        self._remove_constraints('generic')
         self._constraints_rhs_and_type['generic'] = type_and_rhs.loc[:, ['set', 'constraint_id', 'type', 'rhs']]
         self._next_constraint_id = type_and_rhs['constraint_id'].max() + 1
 
@@ -2732,6 +2761,7 @@ class SpotMarket:
         else:
             ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
+        self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
             deficit_variables, lhs = elastic_constraints.create_deficit_variables(rhs_and_type, self._next_variable_id)
             self._decision_variables[constraints_key + '_deficit'] = \
@@ -2848,6 +2878,7 @@ class SpotMarket:
                                                           unit_regions, self._next_constraint_id)
 
         self._lhs_coefficients['tie_break'] = lhs
+        self._remove_constraints('tie_break')
         self._constraints_rhs_and_type['tie_break'] = rhs
         self._next_constraint_id = rhs['constraint_id'].max() + 1
         self.make_constraints_elastic('tie_break', violation_cost=cost)
-- 
2.43.0


From 11ff77aff6fc81880bb21ee184422ca1efe13137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:37 +0000
Subject: [PATCH 11/51] fix: raise the error for unsupported violation costs

---
 src/nempy/markets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 588be27..9b3329c 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2759,7 +2759,7 @@ class SpotMarket:
             self._validate_violation_cost(violation_cost)
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
 
         self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
-- 
2.43.0


From cc67b8f6e302130a0b71a10e594fcb0ba0a71d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:38 +0000
Subject: [PATCH 12/51] fix: refuse interconnector losses before
 interconnectors, and repeated sets in violation costs

---
 src/nempy/markets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 9b3329c..258ef3f 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2230,7 +2230,7 @@ class SpotMarket:
                 from_region_loss_share are outside the range of 0.0 to 1.0
         """
         if 'interconnectors' not in self._decision_variables:
-            ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
+            raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
         if 'link' not in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
@@ -2773,7 +2773,7 @@ class SpotMarket:
 
     @staticmethod
     def _validate_violation_cost(violation_cost):
-        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set', 'cost'])
+        schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
         schema.add_column(dv.SeriesSchema(name='cost', data_type=np.float64, must_be_real_number=True))
         schema.validate(violation_cost)
-- 
2.43.0


From d3e3b766c49e059125294feef0b5d7bf5aeab98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:38 +0000
Subject: [PATCH 13/51] fix: elastic joint ramping constraints when only some
 regulation services are offered

---
 src/nempy/markets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 258ef3f..e240c07 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1619,8 +1619,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
-            self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
+            if 'joint_ramping_raise_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_raise_reg', violation_cost)
+            if 'joint_ramping_lower_reg' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('joint_ramping_lower_reg', violation_cost)
             if 'joint_ramping_raise_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('joint_ramping_raise_reg_bdu', violation_cost)
             if 'joint_ramping_lower_reg_bdu' in self._constraint_to_variable_map['unit_level'].keys():
-- 
2.43.0


From f308085a3776a6ca97467092b24fbf34625b0394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:38 +0000
Subject: [PATCH 14/51] fix: allow tie break constraints to be set when no bids
 are tied

---
 src/nempy/markets.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e240c07..ada23e5 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2879,11 +2879,12 @@ class SpotMarket:
         lhs, rhs = unit_constraints.tie_break_constraints(price_bids, bid_decision_variables,
                                                           unit_regions, self._next_constraint_id)
 
-        self._lhs_coefficients['tie_break'] = lhs
         self._remove_constraints('tie_break')
-        self._constraints_rhs_and_type['tie_break'] = rhs
-        self._next_constraint_id = rhs['constraint_id'].max() + 1
-        self.make_constraints_elastic('tie_break', violation_cost=cost)
+        self._lhs_coefficients['tie_break'] = lhs
+        if not rhs.empty:
+            self._constraints_rhs_and_type['tie_break'] = rhs
+            self._next_constraint_id = rhs['constraint_id'].max() + 1
+            self.make_constraints_elastic('tie_break', violation_cost=cost)
 
     def dispatch(self, energy_market_ceiling_price=None, energy_market_floor_price=None, fcas_market_ceiling_price=None,
                  allow_over_constrained_dispatch_re_run=False):
-- 
2.43.0


From eb8d4ce6b7e7471b0e3483194d659968765d46d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:56 +0000
Subject: [PATCH 15/51] fix: accept ramp rates that leave no unit level ramp
 constraints to create

---
 src/nempy/markets.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index ada23e5..2006c4e 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -851,17 +851,18 @@ class SpotMarket:
         for constraints_key in ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']:
             self._remove_constraints(constraints_key)
 
-        rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+        if not ramp_details.empty:
+            rhs_and_type, variable_map = unit_constraints.ramp_up(ramp_details, self._next_constraint_id,
+                                                                  self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_up'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_up'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
-        rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
-                                                              self.dispatch_interval)
-        self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
-        self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
-        self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
+            rhs_and_type, variable_map = unit_constraints.ramp_down(ramp_details, self._next_constraint_id,
+                                                                  self.dispatch_interval)
+            self._constraints_rhs_and_type['ramp_down'] = rhs_and_type
+            self._constraint_to_variable_map['unit_level']['ramp_down'] = variable_map
+            self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not bidirectional_unit_ramp_details.empty:
 
@@ -878,8 +879,10 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if violation_cost is not None:
-            self.make_constraints_elastic('ramp_up', violation_cost)
-            self.make_constraints_elastic('ramp_down', violation_cost)
+            if 'ramp_up' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('ramp_up', violation_cost)
+            if 'ramp_down' in self._constraint_to_variable_map['unit_level'].keys():
+                self.make_constraints_elastic('ramp_down', violation_cost)
 
             if 'bidirectional_ramp_up' in self._constraint_to_variable_map['unit_level'].keys():
                 self.make_constraints_elastic('bidirectional_ramp_up', violation_cost)
-- 
2.43.0


From 8889b5cc734348d8a4586bc446b721a735bb529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:24 +0000
Subject: [PATCH 16/51] fix: refuse price bids that are not monotonic
 increasing, as documented

---
 src/nempy/spot_market_backend/dataframe_validator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index 29c3e71..e1ccf40 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -31,18 +31,21 @@ class DataFrameSchema:
         if self.primary_keys is not None:
             self._check_for_repeated_rows(df)
 
+        if self.row_monatonic_increasing is not None:
+            self._check_row_monatonic_increasing(df)
+
     def _check_for_repeated_rows(self, df):
         cols_in_df = [col for col in self.primary_keys if col in df.columns]
         if len(df.index) != len(df.drop_duplicates(cols_in_df)):
             raise RepeatedRowError('{} should only have one row for each {}.'.format(self.name, ' '.join(cols_in_df)))
 
     def _check_row_monatonic_increasing(self, df):
-        df = df.loc[:, self.row_monatonic_increasing]
-        df = df.transpose()
+        df = df.loc[:, [col for col in self.row_monatonic_increasing if col in df.columns]]
+        df = df.reset_index(drop=True).transpose()
         df.index = pd.to_numeric(df.index)
         df = df.sort_index()
         for col in df.columns:
-            if not df[col].is_monotonic:
+            if not df[col].is_monotonic_increasing:
                 raise BidsNotMonotonicIncreasing('Bids of each unit are not monotonic increasing.')
 
 
-- 
2.43.0


From 6194d4817cca2c60cf62e375cc6a7466082ba610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:49 +0000
Subject: [PATCH 17/51] fix: do not price with unused interconnector links when
 losses are not modelled

---
 src/nempy/markets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 2006c4e..29fa385 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3114,6 +3114,9 @@ class SpotMarket:
         # to be accessed and used to price constraints.
         if 'interconnector_losses' in self._decision_variables:
             si = self._get_linear_model(si)
+        elif 'interconnectors' in self._decision_variables:
+            # Links not in use are not available to the pricing model, whether or not losses are modelled.
+            self._disable_unused_link_pair(si)
         si.linear_mip_model.optimize()
 
         for var_group in self._decision_variables:
-- 
2.43.0


From de362addd54f7d94ded8aedfb9d2a51a121384c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:55 +0000
Subject: [PATCH 18/51] fix: price with the break points either side of the
 flow when it is at a break point

---
 src/nempy/markets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 29fa385..ca69ae1 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3214,10 +3214,12 @@ class SpotMarket:
         def not_closest_three(df):
             df = df.sort_values('distance')
             # The break points either side of the flow are always kept, if break points are not evenly spaced one of
-            # them might not be among the closest three.
-            below = df[df['break_point'] <= df['value']].index[:1]
-            above = df[df['break_point'] >= df['value']].index[:1]
-            either_side = df.index.isin(below.append(above))
+            # them might not be among the closest three. When the flow is at a break point its neighbours are kept.
+            at = df[df['distance'] < 1e-6].index[:1]
+            others = df[~df.index.isin(at)]
+            below = others[others['break_point'] < others['value']].index[:1]
+            above = others[others['break_point'] > others['value']].index[:1]
+            either_side = df.index.isin(at.append([below, above]))
             df = pd.concat([df[either_side], df[~either_side]])
             df = df.iloc[3:, :]
             return df
-- 
2.43.0


From 0ee51aba1c73e6847a8828a62bb0f32d3bb8fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:11 +0000
Subject: [PATCH 19/51] fix: solve models with special ordered sets without
 preprocessing

---
 src/nempy/spot_market_backend/solver_interface.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 091c2d4..bb0c3b9 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -124,6 +124,8 @@ class InterfaceToSolver:
         sos_variables.groupby(sos_id_columns).apply(add_sos_vars, include_groups=False)
         # This is a hack to make sure mip knows there are binary constraints.
         self.mip_model.add_var(var_type=BINARY, obj=0.0)
+        # Preprocessing of models with special ordered sets is unreliable in CBC, feasible models can be declared infeasible.
+        self.mip_model.preprocess = 0
 
     def add_sos_type_1(self, sos_variables):
         # Function that adds sets to mip model.
@@ -136,6 +138,8 @@ class InterfaceToSolver:
         sos_variables.groupby('sos_id').apply(add_sos_vars)
         # This is a hack to make mip knows there are binary constraints.
         self.mip_model.add_var(var_type=BINARY, obj=0.0)
+        # Preprocessing of models with special ordered sets is unreliable in CBC, feasible models can be declared infeasible.
+        self.mip_model.preprocess = 0
 
     def add_objective_function(self, objective_function):
         """Add the objective function to the mip model.
-- 
2.43.0


From d542844e411fd22137ea0136ace087679f88a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:05 +0000
Subject: [PATCH 20/51] fix: handle demand and FCAS requirements that no unit
 or interconnector can contribute to

A requirement for a service that nobody offers, or demand in a region without
units and interconnectors, failed with an AttributeError even if nothing was
required; requirements that can not be met raise the usual infeasible error.
---
 src/nempy/markets.py                              | 7 +++++++
 src/nempy/spot_market_backend/solver_interface.py | 3 ++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index ca69ae1..144b32a 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -3075,6 +3075,13 @@ class SpotMarket:
             constraints_rhs_and_type = pd.concat(constraints_rhs_and_type)
             si.add_constraints(constraints_lhs, constraints_rhs_and_type)
 
+        # Demand and FCAS requirements that no variables contribute to are not in the model, but still need to be met.
+        for market_constraints in self._market_constraints_rhs_and_type.values():
+            no_lhs = market_constraints[~market_constraints['constraint_id'].isin(constraints_lhs['constraint_id'])]
+            if (((no_lhs['type'] != '>=') & (no_lhs['rhs'] < 0.0)) |
+                    ((no_lhs['type'] != '<=') & (no_lhs['rhs'] > 0.0))).any():
+                raise ValueError('Linear program infeasible')
+
         # If interconnectors with losses are being used, create special ordered sets for modelling losses.
         if 'interpolation_weights' in self._decision_variables:
             special_ordered_sets = self._decision_variables['interpolation_weights']
diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index bb0c3b9..ee700c4 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -454,7 +454,8 @@ class InterfaceToSolver:
         """
         costs = {}
         for id in constraint_ids_to_price:
-            costs[id] = self.linear_mip_model.constr_by_name(str(id)).pi
+            # Constraints that no variables contribute to are not part of the model.
+            costs[id] = getattr(self.linear_mip_model.constr_by_name(str(id)), 'pi', 0.0)
         return costs
 
     def update_rhs(self, constraint_id, violation_degree):
-- 
2.43.0


From a89d975acde52fdbdceed0ae8d6bc42fd12a0dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:42 +0000
Subject: [PATCH 21/51] fix: refuse null, infinite and negative unit capacities
 and negative ramp rates as documented

---
 src/nempy/markets.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 144b32a..ce16881 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -537,7 +537,8 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         if self.dispatch_type_required:
             schema.add_column(dv.SeriesSchema(name='dispatch_type', data_type=str, allowed_values=['generator', 'load']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     def set_unconstrained_intermittent_generation_forecast_constraint(self, unit_limits, violation_cost=None):
@@ -647,7 +648,8 @@ class SpotMarket:
     def _validate_uigf_limits(self, unit_limits):
         schema = dv.DataFrameSchema(name='unit_limits', primary_keys=['unit'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
-        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64))
+        schema.add_column(dv.SeriesSchema(name='capacity', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.validate(unit_limits)
 
     def set_unit_ramp_rate_constraints(self, ramp_details, scada_ramp_rates=None, fast_start_profiles=None,
@@ -893,8 +895,10 @@ class SpotMarket:
         schema = dv.DataFrameSchema(name='ramp_details', primary_keys=['unit', 'dispatch_type'])
         schema.add_column(dv.SeriesSchema(name='unit', data_type=str, allowed_values=self._unit_info['unit']))
         schema.add_column(dv.SeriesSchema(name='initial_output', data_type=np.float64, must_be_real_number=True))
-        schema.add_column(dv.SeriesSchema(name='ramp_up_rate', data_type=np.float64, must_be_real_number=True))
-        schema.add_column(dv.SeriesSchema(name='ramp_down_rate', data_type=np.float64, must_be_real_number=True))
+        schema.add_column(dv.SeriesSchema(name='ramp_up_rate', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
+        schema.add_column(dv.SeriesSchema(name='ramp_down_rate', data_type=np.float64, must_be_real_number=True,
+                                          not_negative=True))
         schema.add_column(dv.SeriesSchema(name='scada_ramp_up_rate', data_type=np.float64),
                           optional=True)
         schema.add_column(dv.SeriesSchema(name='scada_ramp_down_rate', data_type=np.float64),
-- 
2.43.0


From 34c9ba40a16b661cd3a1420d4ae30013ac892b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:48 +0000
Subject: [PATCH 22/51] fix: refuse loss shares above one as documented

---
 src/nempy/markets.py                                 | 2 +-
 src/nempy/spot_market_backend/dataframe_validator.py | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index ce16881..e1364c6 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2307,7 +2307,7 @@ class SpotMarket:
         schema.add_column(dv.SeriesSchema(name='link', data_type=str))
         schema.add_column(dv.SeriesSchema(name='loss_function', data_type=callable))
         schema.add_column(dv.SeriesSchema(name='from_region_loss_share', data_type=np.float64, must_be_real_number=True,
-                                          not_negative=True))
+                                          not_negative=True, maximum=1.0))
         schema.validate(loss_functions)
 
     @staticmethod
diff --git a/src/nempy/spot_market_backend/dataframe_validator.py b/src/nempy/spot_market_backend/dataframe_validator.py
index e1ccf40..15e945b 100644
--- a/src/nempy/spot_market_backend/dataframe_validator.py
+++ b/src/nempy/spot_market_backend/dataframe_validator.py
@@ -65,6 +65,7 @@ class SeriesSchema:
         self._check_allowed_values(series)
         self._check_is_real_number(series)
         self._check_is_not_negtaive(series)
+        self._check_is_not_above_maximum(series)
 
     def _check_data_type(self, series):
         if self.data_type == str:
@@ -95,6 +96,11 @@ class SeriesSchema:
             if series.min() < 0.0:
                 raise ColumnValues("Negative values not allowed in column '{}'.".format(self.name))
 
+    def _check_is_not_above_maximum(self, series):
+        if self.max is not None:
+            if series.max() > self.max:
+                raise ColumnValues("Values above {} not allowed in column '{}'.".format(self.max, self.name))
+
 
 class RepeatedRowError(Exception):
     """Raise for repeated rows."""
-- 
2.43.0


From 2de81ecae7462457983d18797a4b02a338c903b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:54 +0000
Subject: [PATCH 23/51] fix: refuse generic constraints whose type is not a
 known relation

---
 src/nempy/markets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index e1364c6..54f9558 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2400,11 +2400,10 @@ class SpotMarket:
         if violation_cost is not None:
             self.make_constraints_elastic('generic', violation_cost)
 
-    @staticmethod
-    def _validate_generic_constraint_parameters(generic_constraint_parameters):
+    def _validate_generic_constraint_parameters(self, generic_constraint_parameters):
         schema = dv.DataFrameSchema(name='generic_constraint_parameters', primary_keys=['set'])
         schema.add_column(dv.SeriesSchema(name='set', data_type=str))
-        schema.add_column(dv.SeriesSchema(name='type', data_type=str))
+        schema.add_column(dv.SeriesSchema(name='type', data_type=str, allowed_values=self._allowed_constraint_types))
         schema.add_column(dv.SeriesSchema(name='rhs', data_type=np.float64, must_be_real_number=True))
         schema.validate(generic_constraint_parameters)
 
-- 
2.43.0


From 77d3df7a7bea48f0398231cd38d4cf24612617b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:59 +0000
Subject: [PATCH 24/51] fix: report a missing interconnector column as
 MissingColumnError

---
 src/nempy/markets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 54f9558..368b98b 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2018,7 +2018,8 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
-        if 'link' not in interconnector_directions_and_limits.columns:
+        if ('link' not in interconnector_directions_and_limits.columns and
+                'interconnector' in interconnector_directions_and_limits.columns):
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
         if 'from_region_loss_factor' not in interconnector_directions_and_limits.columns:
             interconnector_directions_and_limits['from_region_loss_factor'] = 1.0
@@ -2241,10 +2242,11 @@ class SpotMarket:
         if 'interconnectors' not in self._decision_variables:
             raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
-        if 'link' not in loss_functions.columns:
+        if 'link' not in loss_functions.columns and 'interconnector' in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
-        if 'link' not in interpolation_break_points.columns:
+        if ('link' not in interpolation_break_points.columns and
+                'interconnector' in interpolation_break_points.columns):
             interpolation_break_points['link'] = interpolation_break_points['interconnector']
 
         if self.validate_inputs:
-- 
2.43.0


From aa225cc0f70dab7b8f1c8f488b3c55d1f65c737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:12 +0000
Subject: [PATCH 25/51] fix: check the violation cost before changing the
 market

---
 src/nempy/markets.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 368b98b..199a26e 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -517,6 +517,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        self._check_violation_cost(violation_cost)
         self._check_unit_volume_bids_set()
         self._validate_unit_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.capacity(
@@ -634,6 +635,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        self._check_violation_cost(violation_cost)
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
@@ -824,6 +826,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the bid band columns.
         """
+        self._check_violation_cost(violation_cost)
         self._validate_ramp_rates(ramp_details)
         self._validate_bidirectional_unit_inputs(ramp_details, "ramp_details")
 
@@ -1031,6 +1034,7 @@ class SpotMarket:
                 If there are inf, null or negative values in any of the numeric columns.
 
         """
+        self._check_violation_cost(violation_cost)
         if self.validate_inputs:
             self._validate_fast_start_profiles(fast_start_profiles)
 
@@ -1160,6 +1164,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the volume column.
         """
+        self._check_violation_cost(violation_cost)
         if self.validate_inputs:
             self._validate_demand(demand)
         rhs_and_type, variable_map = market_constraints.energy(demand, self._next_constraint_id)
@@ -1266,6 +1271,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the volume column.
         """
+        self._check_violation_cost(violation_cost, by_set=True)
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
         rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
@@ -1365,6 +1371,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._check_violation_cost(violation_cost)
         if self.validate_inputs:
             self._validate_fcas_max_availability(fcas_max_availability)
         rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
@@ -1531,6 +1538,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._check_violation_cost(violation_cost)
         if self.validate_inputs:
             self._validate_scada_ramp_rates_for_reg(scada_ramp_rates)
 
@@ -1753,6 +1761,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._check_violation_cost(violation_cost)
         if self.validate_inputs:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
@@ -1890,6 +1899,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null or negative values in the columns of type `np.float64`.
         """
+        self._check_violation_cost(violation_cost)
         if variable_ids:
             self._validate_regulation_trapeziums(regulation_trapeziums)
         rhs_and_type, variable_map = \
@@ -2392,6 +2402,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf or null values in the rhs column.
         """
+        self._check_violation_cost(violation_cost, by_set=True)
         if self.validate_inputs:
             self._validate_generic_constraint_parameters(generic_constraint_parameters)
         type_and_rhs = hf.save_index(generic_constraint_parameters, 'constraint_id', self._next_constraint_id)
@@ -2763,13 +2774,13 @@ class SpotMarket:
         else:
             raise check.ModelBuildError('constraints_key does not exist.')
 
-        if isinstance(violation_cost, (int, float)) and not isinstance(violation_cost, bool):
-            rhs_and_type['cost'] = violation_cost
-        elif isinstance(violation_cost, pd.DataFrame):
-            self._validate_violation_cost(violation_cost)
+        if violation_cost is None:
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+        self._check_violation_cost(violation_cost, by_set='set' in rhs_and_type.columns)
+        if isinstance(violation_cost, pd.DataFrame):
             rhs_and_type = pd.merge(rhs_and_type, violation_cost.loc[:, ['set', 'cost']], on='set')
         else:
-            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+            rhs_and_type['cost'] = violation_cost
 
         self._remove_deficit_variables(constraints_key)
         if not rhs_and_type.empty:
@@ -2781,6 +2792,15 @@ class SpotMarket:
             self._lhs_coefficients[constraints_key + '_deficit'] = lhs
             self._next_variable_id = max(deficit_variables['variable_id']) + 1
 
+    def _check_violation_cost(self, violation_cost, by_set=False):
+        if isinstance(violation_cost, pd.DataFrame):
+            self._validate_violation_cost(violation_cost)
+            if not by_set:
+                raise dv.MissingColumnError('Violation costs by set given for constraints without the column set.')
+        elif violation_cost is not None and (not isinstance(violation_cost, (int, float))
+                                             or isinstance(violation_cost, bool)):
+            raise ValueError("Input for violation cost can only be numeric or a pd.Dataframe")
+
     @staticmethod
     def _validate_violation_cost(violation_cost):
         schema = dv.DataFrameSchema(name='violation_cost', primary_keys=['set'])
-- 
2.43.0


From 2b3f6a655cb6ac76c9de601eaf0f95f523f22aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:35 +0000
Subject: [PATCH 26/51] fix: refuse losses for interconnectors that are not in
 the model

---
 src/nempy/markets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 199a26e..14df204 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -2263,6 +2263,11 @@ class SpotMarket:
             self._validate_loss_functions(loss_functions)
             self._validate_interpolation_break_points(interpolation_break_points)
 
+        interconnectors_in_market = self._interconnector_directions['interconnector']
+        if not (loss_functions['interconnector'].isin(interconnectors_in_market).all() and
+                interpolation_break_points['interconnector'].isin(interconnectors_in_market).all()):
+            raise ModelBuildError('Losses given for interconnectors that have not been added to the model.')
+
         self._interconnector_loss_shares = loss_functions.loc[:, ['interconnector', 'link', 'from_region_loss_share']]
 
         loss_functions = pd.merge(loss_functions,
-- 
2.43.0


From 160c324d5fdc008412f1659a9e6d4622aefcb766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:45 +0000
Subject: [PATCH 27/51] fix: only report the over-constrained file name when
 that file is cached

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 947597a..3eb1f22 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -153,7 +153,7 @@ class XMLCacheManager:
         path_name_OCD = Path(self.cache_folder) / name_OCD
         if os.path.exists(path_name):
             return name
-        elif path_name_OCD:
+        elif os.path.exists(path_name_OCD):
             return name_OCD
         else:
             return name
-- 
2.43.0


From dca0333c57b05dc4c4cc19fabb42e46125acce3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 28/51] fix: report an interval without a published archive as
 MissingDataError

---
 src/nempy/historical_inputs/xml_cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 3eb1f22..63f644f 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -169,7 +169,10 @@ class XMLCacheManager:
         except zipfile.BadZipFile:
             sleep(200)
             r = requests.get(url)
-            z = zipfile.ZipFile(io.BytesIO(r.content))
+            try:
+                z = zipfile.ZipFile(io.BytesIO(r.content))
+            except zipfile.BadZipFile:
+                return  # No archive published for this day, load_interval reports the data as missing.
             z.extractall(self.cache_folder)
 
     def _get_market_year_month_day(self):
-- 
2.43.0


From 5cbe38153a90e2ad07b331758f2552b5d13d77b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 29/51] fix: drop the previous interval's data when loading an
 interval fails

---
 src/nempy/historical_inputs/xml_cache.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 63f644f..ff2248f 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -84,6 +84,7 @@ class XMLCacheManager:
             If the data for an interval is not in the cache and cannot be downloaded from NEMWeb.
         """
         self.interval = interval
+        self.xml = None  # Don't keep serving the previous interval's data if this one can't be loaded.
         if not self.interval_inputs_in_cache():
             self._download_xml_from_nemweb()
             if not self.interval_inputs_in_cache():
-- 
2.43.0


From 60be635344c74393ce2ea65a9c382625d244776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 30/51] fix: populate the NEMDE cache up to and including the
 end date

---
 src/nempy/historical_inputs/xml_cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index ff2248f..71fb7ec 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -41,9 +41,10 @@ class XMLCacheManager:
             end_year += 1
         else:
             end_month += 1
+        end = datetime(year=end_year, month=end_month, day=1) - timedelta(days=1)
 
         self.populate_by_day(start_year=start_year, start_month=start_month, start_day=1,
-                             end_year=end_year, end_month=end_month, end_day=1, verbose=verbose)
+                             end_year=end.year, end_month=end.month, end_day=end.day, verbose=verbose)
 
     def populate_by_day(self, start_year, start_month, end_year, end_month, start_day, end_day, verbose=True):
         """Download data to the cache from the AEMO website. Data downloaded is inclusive of the start and end date.
@@ -57,7 +58,9 @@ class XMLCacheManager:
                 print('Downloading NEMDE XML file for year={}, month={}, day={}'.format(download_date.year,
                                                                                         download_date.month,
                                                                                         download_date.day))
-            download_date_str = download_date.isoformat().replace('T', ' ').replace('-', '/')
+            # Midday always falls in the market day (starting 04:05) of the same date.
+            midday = download_date + timedelta(hours=12)
+            download_date_str = midday.isoformat().replace('T', ' ').replace('-', '/')
             self.load_interval(download_date_str)
             download_date += timedelta(days=1)
 
-- 
2.43.0


From c708c5025b778ac5cc370933f9cbec6c86329b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 31/51] fix: leave missing volume bid attributes empty instead
 of repeating the previous value

---
 src/nempy/historical_inputs/xml_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 71fb7ec..84766ce 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -447,6 +447,8 @@ class XMLCacheManager:
                         value = float(trade[aemo_name])
                 elif aemo_name == '@Direction':
                     value = 'missing'
+                else:
+                    value = np.nan
                 trades_by_unit_and_type[our_name].append(value)
             return trades_by_unit_and_type
 
-- 
2.43.0


From 20ef5fe0874456cf54dc42f990f47acf5c1f2569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 32/51] fix: leave missing price bands empty instead of filling
 in the direction

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 84766ce..c5e1258 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -535,7 +535,7 @@ class XMLCacheManager:
                         value = trade[aemo_name]
                     else:
                         value = float(trade[aemo_name])
-                elif '@Direction' not in trade:
+                elif aemo_name == '@Direction':
                     if trader['@TraderType'] in ["GENERATOR", "NORMALLY_ON_LOAD", "WDR", "BIDIRECTIONAL"]:
                         value = "GEN"
                     elif trader['@TraderType'] in ["LOAD"]:
-- 
2.43.0


From 3a83e93d6713d18b94bb927068a59272a2b33a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 33/51] fix: read the lower 5 min price

---
 src/nempy/historical_inputs/xml_cache.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index c5e1258..c4e9bcf 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1170,7 +1170,7 @@ class XMLCacheManager:
         """
         service_type_map = \
             {'@EnergyPrice': 'ENERGY', '@LRegPrice': 'LOWERREG', '@RRegPrice': 'RAISEREG', '@R5Price': 'RAISE5MIN',
-             '@RL5Price': 'LOWER5MIN', '@R60Price': 'RAISE60SEC', '@L60Price': 'LOWER60SEC', '@R6Price': 'RAISE6SEC',
+             '@L5Price': 'LOWER5MIN', '@R60Price': 'RAISE60SEC', '@L60Price': 'LOWER60SEC', '@R6Price': 'RAISE6SEC',
              '@L6Price': 'LOWER6SEC', '@R1Price': 'RAISE1SEC', '@L1Price': 'LOWER1SEC'}
         prices = dict(region=[], service=[], price=[])
         regions = self.xml['NEMSPDCaseFile']['NemSpdOutputs']['RegionSolution']
-- 
2.43.0


From d40912f43fb115b23c53373f3e7af3bdbc5e42ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:06 +0000
Subject: [PATCH 34/51] fix: return service prices of the non-intervention run
 as numbers

---
 src/nempy/historical_inputs/xml_cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index c4e9bcf..92b3524 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1176,10 +1176,10 @@ class XMLCacheManager:
         regions = self.xml['NEMSPDCaseFile']['NemSpdOutputs']['RegionSolution']
         for region in regions:
             for xml_service, mms_service in service_type_map.items():
-                if xml_service in region:
+                if xml_service in region and region.get('@Intervention', '0') == '0':
                     prices['region'].append(region['@RegionID'])
                     prices['service'].append(mms_service)
-                    prices['price'].append(region[xml_service])
+                    prices['price'].append(float(region[xml_service]))
         return pd.DataFrame(prices)
 
 
-- 
2.43.0


From bcd95bf8cb2373acc7348f92f8dbaafc9cc6e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:49 +0000
Subject: [PATCH 35/51] fix: do not return unit details whose END_DATE has
 passed

---
 src/nempy/historical_inputs/mms_db.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nempy/historical_inputs/mms_db.py b/src/nempy/historical_inputs/mms_db.py
index 49c8916..2828b0c 100644
--- a/src/nempy/historical_inputs/mms_db.py
+++ b/src/nempy/historical_inputs/mms_db.py
@@ -1101,6 +1101,7 @@ class InputsStartAndEnd(_SingleDataSource):
         data = pd.read_sql_query(query, con=self.con)
         data = data.sort_values('START_DATE')
         data = data.drop_duplicates(subset=["DUID"], keep='last')
+        data = data[~(data['END_DATE'] <= date_time)]
         return data
 
 
-- 
2.43.0


From 8999574585beb6bf2b8c191179aa5eb0dd33a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:27 +0000
Subject: [PATCH 36/51] fix: list each constraint that depends on a measurement
 once

---
 src/nempy/historical_inputs/rhs_calculator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f7042c3..6dd500f 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -391,9 +391,9 @@ class RHSCalc:
         dependent_rhs_equations = []
         for equation_id, equation in self.rhs_constraint_equations.items():
             for term in equation:
-                if ((term["@SpdID"] == spd_id and term['@SpdType'] == type and equation_id not in
-                     dependent_rhs_equations) or (term['@SpdID'] in dependent_generic_equations and
-                                                  term['@SpdType'] == 'X')):
+                if (((term["@SpdID"] == spd_id and term['@SpdType'] == type) or
+                     (term['@SpdID'] in dependent_generic_equations and term['@SpdType'] == 'X')) and
+                        equation_id not in dependent_rhs_equations):
                     dependent_rhs_equations.append(equation_id)
 
         return dependent_rhs_equations
-- 
2.43.0


From e9ce33498ef72b48b8e195b75e67d8932380516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:27 +0000
Subject: [PATCH 37/51] fix: use a right hand side term's default when its data
 is missing

---
 src/nempy/historical_inputs/rhs_calculator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index 6dd500f..f63d7f6 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -471,7 +471,8 @@ class RHSCalc:
         """
         if term['@SpdType'] == 'C':
             value = None
-        elif term['@SpdType'] in ['A', 'S', 'R', 'I', 'W']:
+        elif (term['@SpdType'] in ['A', 'S', 'R', 'I', 'W'] and
+              term['@SpdID'] in self.scada_data.get(term['@SpdType'], {})):
             scadas = self.scada_data[term['@SpdType']][term['@SpdID']]
             if len(scadas) > 0:
                 value = 0
@@ -493,8 +494,11 @@ class RHSCalc:
             value = self.msnsp_from_availbility[term['@SpdID']]
         elif term['@SpdID'] in self.msnsp_to_availbility and term['@SpdType'] == 'N':
             value = self.msnsp_to_availbility[term['@SpdID']]
-        else:
+        elif term['@SpdType'] in ['U', 'G', 'B']:
             value = None
+        else:
+            # There is no data for the term, so the default recorded for it is used.
+            value = term.get('@Default')
         return value
 
     def _compute_generic_equation(self, equation_id):
-- 
2.43.0


From a1cf968429e7de7723723dfd838b0f14fb1ff6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:27 +0000
Subject: [PATCH 38/51] fix: refuse to override an unknown SPD ID with a
 ValueError

---
 src/nempy/historical_inputs/rhs_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f63d7f6..f963114 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -418,7 +418,7 @@ class RHSCalc:
         """
         if type in ['C', 'R', 'X']:
             raise ValueError('Spd term values of type C can\'t be updated')
-        elif type in ['A', 'S', 'I', 'W']:
+        elif type in ['A', 'S', 'I', 'W'] and spd_id in self.scada_data.get(type, {}):
             if len(self.scada_data[type][spd_id]) > 1:
                 raise ValueError('SPD ID and type has more than one value, update not possible.')
             else:
-- 
2.43.0


From c05a5f6d6e2b65e9547d6928d07ab7331e742072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:27 +0000
Subject: [PATCH 39/51] fix: evaluate right hand side groups by the ID of the
 term they belong to

---
 src/nempy/historical_inputs/rhs_calculator.py | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/nempy/historical_inputs/rhs_calculator.py b/src/nempy/historical_inputs/rhs_calculator.py
index f963114..5dcf7d6 100644
--- a/src/nempy/historical_inputs/rhs_calculator.py
+++ b/src/nempy/historical_inputs/rhs_calculator.py
@@ -545,9 +545,16 @@ def _rpn_stack(equation):
     # again
     pop_flag = False
     _clear_group_values(equation)
+    group_ids = [term['@GroupTerm'] for term in equation if '@GroupTerm' in term]
+    super_terms = [term['@TermID'] for term in equation if term['@SpdType'] == 'G' and term['@TermID'] in group_ids]
+    ignore_groups += super_terms
     for i, term in enumerate(equation):
 
-        if (term['@SpdType'] == 'G' and '@Value' not in term and
+        if term['@SpdType'] == 'G' and '@GroupTerm' not in term and term['@TermID'] in super_terms:
+            # The members of a group carry the ID of the type G term they belong to, this holds wherever they are
+            # relative to the type G term, and for groups within groups.
+            term['@Value'] = _rpn_calc(_collect_members(equation, term['@TermID']))
+        elif (term['@SpdType'] == 'G' and '@Value' not in term and
                 ('@GroupTerm' not in term or term['@GroupTerm'] not in ignore_groups)):
             # Deals with the case where a term of type G precedes at set of terms that form a group. In this case the
             # group terms are evaluated separately and the resulting value is given the type G term which is the
@@ -1072,6 +1079,19 @@ def _collect_group(equation, group_id):
     return group
 
 
+def _collect_members(equation, term_id):
+    # The members of the group of the type G term with the given ID, including the members of groups within the group.
+    ids = [term_id]
+    for _ in equation:
+        ids += [term['@TermID'] for term in equation if term['@SpdType'] == 'G' and term.get('@GroupTerm') in ids and
+                term['@TermID'] not in ids]
+    members = [term.copy() for term in equation if term.get('@GroupTerm') in ids]
+    for term in members:
+        if term['@GroupTerm'] == term_id:
+            del term['@GroupTerm']
+    return members
+
+
 def _are_groups(equation):
     for term in equation:
         if '@GroupTerm' in term.keys():
-- 
2.43.0


From 30adeb98e2960c0bbe22b01993cd53d761d1bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 40/51] fix: do not require a service column to construct ramp
 rate parameters

---
 src/nempy/time_sequential.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index c79cb52..df856c4 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -66,7 +66,10 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
 
 
     """
-    last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    if 'service' in last_interval_dispatch.columns:
+        last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
+    else:
+        last_interval_energy_dispatch = last_interval_dispatch
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
-- 
2.43.0


From aa1ffcac1f294078e3920ec6b9a16d1bf22d2aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 41/51] fix: replace an initial output already in the ramp rate
 table

---
 src/nempy/time_sequential.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index df856c4..2d5fed1 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -72,6 +72,7 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
         last_interval_energy_dispatch = last_interval_dispatch
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
+    ramp_rates = ramp_rates.drop(columns='initial_output', errors='ignore')
     ramp_rates = pd.merge(last_interval_energy_dispatch, ramp_rates, how='right', on='unit')
     ramp_rates = ramp_rates.fillna(0.0)
     return ramp_rates
@@ -137,4 +138,5 @@ def create_seed_ramp_rate_parameters(historical_dispatch, as_bid_ramp_rates):
                           (as `np.float64`)
         ================  ========================================
     """
-    return pd.merge(historical_dispatch, as_bid_ramp_rates, on='unit')
\ No newline at end of file
+    as_bid_ramp_rates = as_bid_ramp_rates.drop(columns='initial_output', errors='ignore')
+    return pd.merge(historical_dispatch, as_bid_ramp_rates, on='unit')
-- 
2.43.0


From fb490c3fbff1fd0974897a86eb30b0abbcff58ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:50 +0000
Subject: [PATCH 42/51] fix: chain bidirectional units through their net output

---
 src/nempy/time_sequential.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nempy/time_sequential.py b/src/nempy/time_sequential.py
index 2d5fed1..15ffc9b 100644
--- a/src/nempy/time_sequential.py
+++ b/src/nempy/time_sequential.py
@@ -70,6 +70,7 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
         last_interval_energy_dispatch = last_interval_dispatch[last_interval_dispatch['service'] == 'energy']
     else:
         last_interval_energy_dispatch = last_interval_dispatch
+    last_interval_energy_dispatch = _net_bidirectional_units(last_interval_energy_dispatch, ramp_rates)
     last_interval_energy_dispatch = last_interval_energy_dispatch.loc[:, ['unit', 'dispatch']]
     last_interval_energy_dispatch.columns = ['unit', 'initial_output']
     ramp_rates = ramp_rates.drop(columns='initial_output', errors='ignore')
@@ -78,6 +79,20 @@ def construct_ramp_rate_parameters(last_interval_dispatch, ramp_rates):
     return ramp_rates
 
 
+def _net_bidirectional_units(energy_dispatch, ramp_rates):
+    """Replace the generator and load side dispatch of a bidirectional unit with its net output."""
+    if 'dispatch_type' not in energy_dispatch.columns:
+        return energy_dispatch
+    sides = [df.loc[:, ['unit', 'dispatch_type']] for df in [energy_dispatch, ramp_rates]
+             if 'dispatch_type' in df.columns]
+    sides = pd.concat(sides).drop_duplicates()
+    bidirectional_units = sides[sides['unit'].duplicated()]['unit']
+    load_side = energy_dispatch['unit'].isin(bidirectional_units) & (energy_dispatch['dispatch_type'] == 'load')
+    energy_dispatch = energy_dispatch.assign(
+        dispatch=energy_dispatch['dispatch'].where(~load_side, -1.0 * energy_dispatch['dispatch']))
+    return energy_dispatch.groupby('unit', as_index=False, sort=False)['dispatch'].sum()
+
+
 def create_seed_ramp_rate_parameters(historical_dispatch, as_bid_ramp_rates):
     """Combine historical dispatch and as bid ramp rates to get seed ramp rate parameters for a time sequential model.
 
-- 
2.43.0


From b8b66f6aa5402985deb52357da0350eb1c41ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 43/51] fix: process FCAS bids of intervals without
 semi-scheduled units

---
 src/nempy/historical_inputs/units.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index 7ced716..7063384 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -1505,15 +1505,15 @@ def _scaling_for_uigf(BIDPEROFFER_D, ugif_values):
     fcas_semi_scheduled = fcas_bids[fcas_bids['DUID'].isin(semi_scheduled_units)]
     fcas_not_semi_scheduled = fcas_bids[~fcas_bids['DUID'].isin(semi_scheduled_units)]
 
-    fcas_semi_scheduled = pd.merge(fcas_semi_scheduled, ugif_values.loc[:, ['DUID', 'UIGF']],
-                                   'inner', on='DUID')
-
     def get_new_high_break_point(availability, high_break_point, enablement_max):
         if enablement_max > availability:
             high_break_point = high_break_point - (enablement_max - availability)
         return high_break_point
 
     if not fcas_semi_scheduled.empty:
+        fcas_semi_scheduled = pd.merge(fcas_semi_scheduled, ugif_values.loc[:, ['DUID', 'UIGF']],
+                                       'inner', on='DUID')
+
         # Scale high break points.
         fcas_semi_scheduled['HIGHBREAKPOINT'] = \
             fcas_semi_scheduled.apply(lambda x: get_new_high_break_point(x['UIGF'], x['HIGHBREAKPOINT'],
-- 
2.43.0


From 3759b94f51673472aab3e4fe3f2e2ba6902a7d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:47 +0000
Subject: [PATCH 44/51] fix: keep regulation bids of units without AGC
 enablement limits

---
 src/nempy/historical_inputs/units.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nempy/historical_inputs/units.py b/src/nempy/historical_inputs/units.py
index 7063384..feecbd7 100644
--- a/src/nempy/historical_inputs/units.py
+++ b/src/nempy/historical_inputs/units.py
@@ -1236,9 +1236,9 @@ def _scaling_for_agc_enablement_limits(BIDPEROFFER_D, DISPATCHLOAD):
 
     # Merge in AGC enablement values from dispatch load so they can be compared to offer values.
     lower_reg = pd.merge(lower_reg, DISPATCHLOAD.loc[:, ['DUID', 'LOWERREGENABLEMENTMAX', 'LOWERREGENABLEMENTMIN']],
-                         'inner', on='DUID')
+                         'left', on='DUID')
     raise_reg = pd.merge(raise_reg, DISPATCHLOAD.loc[:, ['DUID', 'RAISEREGENABLEMENTMAX', 'RAISEREGENABLEMENTMIN']],
-                         'inner', on='DUID')
+                         'left', on='DUID')
 
     # Scale lower reg lower trapezium slope.
     lower_reg['LOWBREAKPOINT'] = np.where((lower_reg['LOWERREGENABLEMENTMIN'] > lower_reg['ENABLEMENTMIN']) &
-- 
2.43.0


From 40a97370e50d1187533aa89151f6b4efa1a48301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:15 +0000
Subject: [PATCH 45/51] fix: give the market link offer table typed keys when
 there are no market interconnectors

---
 src/nempy/historical_inputs/xml_cache.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nempy/historical_inputs/xml_cache.py b/src/nempy/historical_inputs/xml_cache.py
index 92b3524..62c7419 100644
--- a/src/nempy/historical_inputs/xml_cache.py
+++ b/src/nempy/historical_inputs/xml_cache.py
@@ -1047,6 +1047,8 @@ class XMLCacheManager:
                     bid_availability['to_region'].append(offer['@RegionID'])
                     bid_availability['availability'].append(float(offer['@MaxAvail']))
         bid_availability = pd.DataFrame(bid_availability)
+        # Explicit types so the table can still be merged on its key columns when there are no market interconnectors.
+        bid_availability = bid_availability.astype({'interconnector': object, 'to_region': object})
         return bid_availability
 
     def find_intervals_with_violations(self, limit, start_year, start_month, end_year, end_month):
-- 
2.43.0


From 4138e29b0582905927c46476d5f71831c1cf728e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:50 +0000
Subject: [PATCH 46/51] fix: market calls no longer modify, or share, the
 tables passed to them

A table given without optional columns had the defaults written into it, so that
passing the same unit_info, bids or ramp rates to another market (or again to the
same one) was refused, and unit_info, interconnectors and generic constraint terms
changed with later changes to the caller's tables.
---
 src/nempy/markets.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index 14df204..d0d3c5d 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -121,6 +121,7 @@ class SpotMarket:
         self.solver_name = 'CBC'
         self.objective_value = None
 
+        unit_info = unit_info.copy()
         if 'loss_factor' not in unit_info.columns:
             unit_info['loss_factor'] = 1.0
 
@@ -260,7 +261,7 @@ class SpotMarket:
         self._validate_bidirectional_unit_inputs(volume_bids, "volume_bids")
 
         self._decision_variables['bids'], variable_to_unit_level_constraint_map, variable_to_regional_constraint_map, = \
-            variable_ids.bids(volume_bids, self._unit_info, self._next_variable_id, self._bidirectional_units)
+            variable_ids.bids(volume_bids.copy(), self._unit_info, self._next_variable_id, self._bidirectional_units)
 
         self._variable_to_constraint_map['regional']['bids'] = variable_to_regional_constraint_map
         self._variable_to_constraint_map['unit_level']['bids'] = variable_to_unit_level_constraint_map
@@ -397,7 +398,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_price_bids(price_bids)
         self._validate_bidirectional_unit_inputs(price_bids, "price_bids")
-        energy_objective_function = objective_function.bids(self._decision_variables['bids'], price_bids)
+        energy_objective_function = objective_function.bids(self._decision_variables['bids'], price_bids.copy())
         energy_objective_function = objective_function.scale_by_loss_factors(energy_objective_function, self._unit_info)
         self._objective_function_components['bids'] = \
             energy_objective_function.loc[:, ['variable_id', 'unit', 'service', 'dispatch_type', 'capacity_band',
@@ -521,7 +522,7 @@ class SpotMarket:
         self._check_unit_volume_bids_set()
         self._validate_unit_limits(unit_limits)
         rhs_and_type, variable_map = unit_constraints.capacity(
-            unit_limits,
+            unit_limits.copy(),
             self._next_constraint_id,
             self._bidirectional_units
         )
@@ -638,7 +639,7 @@ class SpotMarket:
         self._check_violation_cost(violation_cost)
         self._check_unit_volume_bids_set()
         self._validate_uigf_limits(unit_limits)
-        rhs_and_type, variable_map = unit_constraints.uigf(unit_limits, self._next_constraint_id)
+        rhs_and_type, variable_map = unit_constraints.uigf(unit_limits.copy(), self._next_constraint_id)
         self._remove_constraints('uigf_capacity')
         self._constraints_rhs_and_type['uigf_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['uigf_capacity'] = variable_map
@@ -833,6 +834,7 @@ class SpotMarket:
         if run_type != "no_fast_start_units" and fast_start_profiles is not None and self.validate_inputs:
             self._validate_fast_start_profiles_for_ramp_rates(fast_start_profiles, run_type)
 
+        ramp_details = ramp_details.copy()
         if "dispatch_type" not in ramp_details.columns:
             ramp_details["dispatch_type"] = "generator"
 
@@ -1274,7 +1276,7 @@ class SpotMarket:
         self._check_violation_cost(violation_cost, by_set=True)
         if self.validate_inputs:
             self._validate_fcas_requirements(fcas_requirements)
-        rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements, self._next_constraint_id)
+        rhs_and_type, variable_map = market_constraints.fcas(fcas_requirements.copy(), self._next_constraint_id)
         self._remove_constraints('fcas')
         self._market_constraints_rhs_and_type['fcas'] = rhs_and_type
         self._constraint_to_variable_map['regional']['fcas'] = variable_map
@@ -1374,7 +1376,7 @@ class SpotMarket:
         self._check_violation_cost(violation_cost)
         if self.validate_inputs:
             self._validate_fcas_max_availability(fcas_max_availability)
-        rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability,
+        rhs_and_type, variable_map = unit_constraints.fcas_max_availability(fcas_max_availability.copy(),
                                                                             self._next_constraint_id)
         self._remove_constraints('fcas_max_availability')
         self._constraints_rhs_and_type['fcas_max_availability'] = rhs_and_type
@@ -1765,7 +1767,7 @@ class SpotMarket:
         if self.validate_inputs:
             self._validate_contingency_trapeziums(contingency_trapeziums)
         rhs_and_type, variable_map = fcas_constraints.joint_capacity_constraints(
-            contingency_trapeziums, self._bidirectional_units, self._next_constraint_id)
+            contingency_trapeziums.copy(), self._bidirectional_units, self._next_constraint_id)
         self._remove_constraints('joint_capacity')
         self._constraints_rhs_and_type['joint_capacity'] = rhs_and_type
         self._constraint_to_variable_map['unit_level']['joint_capacity'] = variable_map
@@ -1904,7 +1906,7 @@ class SpotMarket:
             self._validate_regulation_trapeziums(regulation_trapeziums)
         rhs_and_type, variable_map = \
             fcas_constraints.energy_and_regulation_capacity_constraints(
-                regulation_trapeziums, self._next_constraint_id
+                regulation_trapeziums.copy(), self._next_constraint_id
 
             )
         self._remove_constraints('energy_and_regulation_capacity')
@@ -2028,6 +2030,7 @@ class SpotMarket:
             ColumnValues
                 If there are inf, null values in the max and min columns.
         """
+        interconnector_directions_and_limits = interconnector_directions_and_limits.copy()
         if ('link' not in interconnector_directions_and_limits.columns and
                 'interconnector' in interconnector_directions_and_limits.columns):
             interconnector_directions_and_limits['link'] = interconnector_directions_and_limits['interconnector']
@@ -2252,6 +2255,8 @@ class SpotMarket:
         if 'interconnectors' not in self._decision_variables:
             raise ModelBuildError('Interconnector losses cannot be set before interconnectors have been added to the model.')
 
+        loss_functions = loss_functions.copy()
+        interpolation_break_points = interpolation_break_points.copy()
         if 'link' not in loss_functions.columns and 'interconnector' in loss_functions.columns:
             loss_functions['link'] = loss_functions['interconnector']
 
@@ -2496,7 +2501,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_unit_coefficients(unit_coefficients)
-        self._generic_constraint_lhs['unit'] = unit_coefficients
+        self._generic_constraint_lhs['unit'] = unit_coefficients.copy()
 
     def _validate_generic_unit_coefficients(self, unit_coefficients):
         schema = dv.DataFrameSchema(name='unit_coefficients', primary_keys=['set', 'unit', 'service'])
@@ -2582,7 +2587,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_region_coefficients(region_coefficients)
-        self._generic_constraint_lhs['region'] = region_coefficients
+        self._generic_constraint_lhs['region'] = region_coefficients.copy()
 
     def _validate_generic_region_coefficients(self, region_coefficients):
         schema = dv.DataFrameSchema(name='region_coefficients', primary_keys=['set', 'region', 'service'])
@@ -2659,7 +2664,7 @@ class SpotMarket:
         """
         if self.validate_inputs:
             self._validate_generic_interconnector_coefficients(interconnector_coefficients)
-        self._generic_constraint_lhs['interconnectors'] = interconnector_coefficients
+        self._generic_constraint_lhs['interconnectors'] = interconnector_coefficients.copy()
 
     def _validate_generic_interconnector_coefficients(self, interconnector_coefficients):
         schema = dv.DataFrameSchema(name='interconnector_coefficients', primary_keys=['set', 'interconnector'])
-- 
2.43.0


From aa225582f6e5be647fb6953d9f63467552a13480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:33 +0000
Subject: [PATCH 47/51] fix: constraint tables handed out for an interval are
 no longer the builder's own

Changing the table returned by get_fcas_requirements, get_region_lhs,
get_interconnector_lhs, get_unit_lhs or get_rhs_and_type changed what later
requests returned.
---
 src/nempy/historical_inputs/constraints.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/nempy/historical_inputs/constraints.py b/src/nempy/historical_inputs/constraints.py
index 737bdf9..e88e7b1 100644
--- a/src/nempy/historical_inputs/constraints.py
+++ b/src/nempy/historical_inputs/constraints.py
@@ -169,7 +169,7 @@ class ConstraintData:
                            (as `np.float64`)
             =============  ===========================================
         """
-        return self.generic_rhs
+        return self.generic_rhs.copy()
 
     def get_unit_lhs(self):
         """Get the lhs coefficients of units.
@@ -212,7 +212,7 @@ class ConstraintData:
             coefficient    the lhs coefficient (as `np.float64`)
             =============  ===========================================
         """
-        return self.unit_generic_lhs
+        return self.unit_generic_lhs.copy()
 
     def get_interconnector_lhs(self):
         """Get the lhs coefficients of interconnectors.
@@ -253,7 +253,7 @@ class ConstraintData:
             coefficient     the lhs coefficient (as `np.float64`)
             =============   ==========================================
         """
-        return self.interconnector_generic_lhs
+        return self.interconnector_generic_lhs.copy()
 
     def get_region_lhs(self):
         """Get the lhs coefficients of regions.
@@ -296,7 +296,7 @@ class ConstraintData:
             coefficient    the lhs coefficient (as `np.float64`)
             =============  ===========================================
         """
-        return self.region_generic_lhs
+        return self.region_generic_lhs.copy()
 
     def get_fcas_requirements(self):
         """Get constraint details needed for setting FCAS requirements.
@@ -343,7 +343,7 @@ class ConstraintData:
                        the column is missing (as `str`)
             ========   ===============================================
         """
-        return self.fcas_requirements
+        return self.fcas_requirements.copy()
 
     def get_violation_costs(self):
         """Get the violation costs for generic constraints.
-- 
2.43.0


From e9760e20d9350dc54734c59a1bf693a0131ff137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 48/51] fix: fast start units in a mode four without length are
 not constrained

---
 src/nempy/spot_market_backend/unit_constraints.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nempy/spot_market_backend/unit_constraints.py b/src/nempy/spot_market_backend/unit_constraints.py
index 0e5bfdc..60bcd05 100644
--- a/src/nempy/spot_market_backend/unit_constraints.py
+++ b/src/nempy/spot_market_backend/unit_constraints.py
@@ -545,7 +545,9 @@ def fast_start_mode_three_constraints(fast_start_profile):
 
 
 def fast_start_mode_four_constraints(fast_start_profile):
-    units_ending_in_mode_four = fast_start_profile[fast_start_profile['end_mode'] == 4].copy()
+    # A mode four without length is over as soon as it is entered, so it does not constrain the unit.
+    units_ending_in_mode_four = fast_start_profile[(fast_start_profile['end_mode'] == 4) &
+                                                   (fast_start_profile['mode_four_length'] > 0.0)].copy()
     units_ending_in_mode_four['target'] = (units_ending_in_mode_four['min_loading'] -
                                            (((units_ending_in_mode_four['time_in_end_mode']) /
                                              units_ending_in_mode_four['mode_four_length']) *
-- 
2.43.0


From 03e4ee2c777c7f1b9c1ddbee13d7b633f3211ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 49/51] fix: no joint ramping constraint in a direction without
 a SCADA ramp rate

---
 src/nempy/markets.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nempy/markets.py b/src/nempy/markets.py
index d0d3c5d..51be12d 100644
--- a/src/nempy/markets.py
+++ b/src/nempy/markets.py
@@ -1578,6 +1578,8 @@ class SpotMarket:
         ramp_up_rates_for_raise_reg = \
             ramp_up_rates_for_raise_reg.loc[:, ['unit', 'dispatch_type', 'service', 'ramp_up_rate', 'initial_output']]
         ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg.rename(columns={'ramp_up_rate': 'ramp_rate'})
+        # Units without a SCADA ramp up rate are not constrained.
+        ramp_up_rates_for_raise_reg = ramp_up_rates_for_raise_reg[~ramp_up_rates_for_raise_reg['ramp_rate'].isna()]
 
         ramp_up_rates_for_raise_reg_bdu = ramp_up_rates_for_raise_reg[
             ramp_up_rates_for_raise_reg['unit'].isin(self._bidirectional_units)]
@@ -1593,8 +1595,6 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not ramp_up_rates_for_raise_reg_bdu.empty:
-            ramp_up_rates_for_raise_reg_bdu = \
-                ramp_up_rates_for_raise_reg_bdu[~ramp_up_rates_for_raise_reg_bdu.isna()]
             rhs_and_type, variable_map = \
                 fcas_constraints.joint_ramping_constraints_raise_reg_bdu(
                     ramp_up_rates_for_raise_reg_bdu, self.dispatch_interval, self._next_constraint_id)
@@ -1611,6 +1611,8 @@ class SpotMarket:
         ramp_down_rates_for_lower_reg = \
             ramp_down_rates_for_lower_reg.loc[:, ['unit', 'dispatch_type', 'service', 'ramp_down_rate', 'initial_output']]
         ramp_down_rates_for_lower_reg = ramp_down_rates_for_lower_reg.rename(columns={'ramp_down_rate': 'ramp_rate'})
+        # Units without a SCADA ramp down rate are not constrained.
+        ramp_down_rates_for_lower_reg = ramp_down_rates_for_lower_reg[~ramp_down_rates_for_lower_reg['ramp_rate'].isna()]
 
         ramp_down_rates_for_lower_reg_bdu = ramp_down_rates_for_lower_reg[
             ramp_down_rates_for_lower_reg['unit'].isin(self._bidirectional_units)]
@@ -1626,8 +1628,6 @@ class SpotMarket:
             self._next_constraint_id = max(rhs_and_type['constraint_id']) + 1
 
         if not ramp_down_rates_for_lower_reg_bdu.empty:
-            ramp_down_rates_for_lower_reg_bdu = \
-                ramp_down_rates_for_lower_reg_bdu[~ramp_down_rates_for_lower_reg_bdu.isna()]
             rhs_and_type, variable_map = \
                 fcas_constraints.joint_ramping_constraints_lower_reg_bdu(
                     ramp_down_rates_for_lower_reg_bdu, self.dispatch_interval, self._next_constraint_id)
-- 
2.43.0


From 3311b0e401e1411b210c0916ed6488c8070879b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 50/51] fix: the MIP gap asked for is the one the solver uses

---
 src/nempy/spot_market_backend/solver_interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index ee700c4..060499f 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -21,8 +21,9 @@ class InterfaceToSolver:
             raise ValueError("Solver '{}' not recognised.")
 
         self.mip_model.verbose = 0
-        self.mip_model.solver.set_mip_gap_abs(1e-10)
-        self.mip_model.solver.set_mip_gap(1e-20)
+        # Set on the model, gaps set directly on the solver are overwritten by those of the model when it is optimised.
+        self.mip_model.max_mip_gap_abs = 1e-10
+        self.mip_model.max_mip_gap = 1e-20
         self.mip_model.lp_method = LP_Method.DUAL
 
         self.linear_mip_model.verbose = 0
-- 
2.43.0


From b9a0fb0970c663ed57c8029807db7e9af16450b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:43 +0000
Subject: [PATCH 51/51] fix: report the solution whose cost CBC reports for
 models with special ordered sets

---
 .../spot_market_backend/solver_interface.py   | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/nempy/spot_market_backend/solver_interface.py b/src/nempy/spot_market_backend/solver_interface.py
index 060499f..b4a097f 100644
--- a/src/nempy/spot_market_backend/solver_interface.py
+++ b/src/nempy/spot_market_backend/solver_interface.py
@@ -9,6 +9,7 @@ class InterfaceToSolver:
     def __init__(self, solver_name='CBC'):
         self.variables = {}
         self.linear_mip_variables = {}
+        self.special_ordered_sets = []
 
         self.solver_name = solver_name
         if solver_name == 'CBC':
@@ -117,7 +118,7 @@ class InterfaceToSolver:
 
         # Function that adds sets to mip model.
         def add_sos_vars(sos_group):
-            self.mip_model.add_sos(list(zip(sos_group['vars'], sos_group[position_column])), 2)
+            self._add_sos(list(zip(sos_group['vars'], sos_group[position_column])), 2)
 
         # For each variable_id get the variable object from the mip model
         sos_variables['vars'] = sos_variables['variable_id'].apply(lambda x: self.variables[x])
@@ -131,7 +132,7 @@ class InterfaceToSolver:
     def add_sos_type_1(self, sos_variables):
         # Function that adds sets to mip model.
         def add_sos_vars(sos_group):
-            self.mip_model.add_sos(list(zip(sos_group['vars'], [1.0 for i in range(len(sos_variables['vars']))])), 1)
+            self._add_sos(list(zip(sos_group['vars'], [1.0 for i in range(len(sos_variables['vars']))])), 1)
 
         # For each variable_id get the variable object from the mip model
         sos_variables['vars'] = sos_variables['variable_id'].apply(lambda x: self.variables[x])
@@ -142,6 +143,10 @@ class InterfaceToSolver:
         # Preprocessing of models with special ordered sets is unreliable in CBC, feasible models can be declared infeasible.
         self.mip_model.preprocess = 0
 
+    def _add_sos(self, sos, sos_type):
+        self.mip_model.add_sos(sos, sos_type)
+        self.special_ordered_sets.append(([(variable.name, weight) for variable, weight in sos], sos_type))
+
     def add_objective_function(self, objective_function):
         """Add the objective function to the mip model.
 
@@ -299,6 +304,29 @@ class InterfaceToSolver:
             con_index = find_problem_constraint(self.mip_model)
             print('Couldn\'t find an optimal solution, but removing con {} fixed INFEASIBLITY'.format(con_index))
             raise ValueError('Linear program infeasible')
+        if self.special_ordered_sets and not self._has_solution_of_reported_cost(self.mip_model):
+            self._resolve_with_preprocessing()
+
+    @staticmethod
+    def _has_solution_of_reported_cost(model):
+        cost = sum(coefficient * variable.x for variable, coefficient in model.objective.expr.items())
+        return abs(cost - model.objective_value) <= 1e-6 * max(1.0, abs(model.objective_value))
+
+    def _resolve_with_preprocessing(self):
+        # With special ordered sets CBC sometimes returns a solution other than the optimal one it found and reports the
+        # cost of. Preprocessing changes the path CBC takes, the model is rebuilt because CBC can't be relied on to
+        # provide the slack in constraints when the same model is solved twice.
+        model = self.mip_model.copy()
+        model.verbose = 0
+        model.max_mip_gap_abs = self.mip_model.max_mip_gap_abs
+        model.max_mip_gap = self.mip_model.max_mip_gap
+        for sos, sos_type in self.special_ordered_sets:
+            model.add_sos([(model.var_by_name(name), weight) for name, weight in sos], sos_type)
+        model.preprocess = 1
+        if model.optimize() == OptimizationStatus.OPTIMAL and self._has_solution_of_reported_cost(model):
+            self.mip_model = model
+            self.variables = {variable_id: model.var_by_name(variable.name)
+                              for variable_id, variable in self.variables.items()}
 
     def get_optimal_values_of_decision_variables(self, variable_definitions):
         """Get the optimal values for each decision variable.
-- 
2.43.0

