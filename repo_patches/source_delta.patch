From fa422bba8a767819a7549addd8433773f89a3b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:38 +0000
Subject: [PATCH 01/18] fix: restore the annual load shape when sizing fails

---
 src/ecoengine/objects/dhwsystems/DHWSystem.py                | 5 ++---
 .../objects/dhwsystems/recirc_systems/SwingSystem.py         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/DHWSystem.py b/src/ecoengine/objects/dhwsystems/DHWSystem.py
index 46e39f9..3736748 100644
--- a/src/ecoengine/objects/dhwsystems/DHWSystem.py
+++ b/src/ecoengine/objects/dhwsystems/DHWSystem.py
@@ -379,9 +379,8 @@ class DHWSystem:
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     def get_minimum_capacity_kbtuh(self) -> float:
         """
diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 7b90b9a..4aed5c3 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -266,9 +266,8 @@ class SwingSystem(RecircSystem):
 
         finally:
             self.max_daily_run_hr = original_max_run_hr
-
-        if was_annual:
-            building.set_to_annual_load_shape()
+            if was_annual:
+                building.set_to_annual_load_shape()
 
     # ------------------------------------------------------------------
     # Sizing curve — override to enforce correct call order
-- 
2.43.0


From 1d88fa1ce178cbfe8c7a1cdddeb6ca3ecee2704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:03 +0000
Subject: [PATCH 02/18] fix: restore building and system state when an ER curve
 point cannot be sized

---
 .../recirc_systems/SwingERTrdOffSystem.py     | 54 ++++++++++---------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 2d21238..7350ec3 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -576,32 +576,34 @@ class SwingERTrdOffSystem(SwingSystem):
         startind = 0
 
         i = 120.0
-        while i > 0:
-            if i == 100.0:
-                startind   = len(fract_covered)
-                total_tm_i = original_total_tm
-                er_needed  = True
-            else:
-                building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
-                self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
-                self._er_capacity_kbtuh            = None
-                self.er_safety_factor              = additional_er_safety
-                self._size_er_element(building)
-                self.er_safety_factor              = original_er_safety
-                total_tm_i = self._minimum_tm_capacity_kbtuh
-                er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
-
-            er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
-            fract_covered.append(i)
-            i -= 10.0
-
-            if not er_needed:
-                break  # no ER at this fraction; lower fractions won't need it either
-
-        # Restore mutated state
-        building.daily_dhw_use_supplyT_gal = original_daily_gal
-        self._minimum_tm_capacity_kbtuh    = original_total_tm
-        self._er_capacity_kbtuh            = original_er_kbtuh
+        try:
+            while i > 0:
+                if i == 100.0:
+                    startind   = len(fract_covered)
+                    total_tm_i = original_total_tm
+                    er_needed  = True
+                else:
+                    building.daily_dhw_use_supplyT_gal = original_daily_gal * (i / 100.0)
+                    self._minimum_tm_capacity_kbtuh    = base_tm_kbtuh
+                    self._er_capacity_kbtuh            = None
+                    self.er_safety_factor              = additional_er_safety
+                    self._size_er_element(building)
+                    self.er_safety_factor              = original_er_safety
+                    total_tm_i = self._minimum_tm_capacity_kbtuh
+                    er_needed  = bool(self._er_capacity_kbtuh and self._er_capacity_kbtuh > 0)
+
+                er_cap_kw.append(round(total_tm_i / _W_TO_KBTUH, 0))
+                fract_covered.append(i)
+                i -= 10.0
+
+                if not er_needed:
+                    break  # no ER at this fraction; lower fractions won't need it either
+        finally:
+            # Restore mutated state, also when a point cannot be sized
+            building.daily_dhw_use_supplyT_gal = original_daily_gal
+            self._minimum_tm_capacity_kbtuh    = original_total_tm
+            self._er_capacity_kbtuh            = original_er_kbtuh
+            self.er_safety_factor              = original_er_safety
 
         # Lists were built high-to-low; reverse so x is ascending
         fract_covered.reverse()
-- 
2.43.0


From 28762fb3d8e3f5c4029fe9f01373353f70105416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:43 +0000
Subject: [PATCH 03/18] fix: size the ER element from the daily load shape of
 an annual building

---
 .../objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
index 7350ec3..9cbf899 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingERTrdOffSystem.py
@@ -351,7 +351,12 @@ class SwingERTrdOffSystem(SwingSystem):
 
         # 2-day minute-resolution demand array starting from the peak demand hour.
         daily_gal  = building.daily_dhw_use_supplyT_gal
+        was_annual = building.is_annual_load_shape()
+        if was_annual:
+            building.set_to_daily_load_shape()
         load_shape = building.peak_load_shape   # 24 normalised fractions
+        if was_annual:
+            building.set_to_annual_load_shape()
         hourly_diff = np.ones(24) / self.max_daily_run_hr - load_shape
         peak_indices = _get_peak_indices(hourly_diff)
         peak_idx = peak_indices[0] if peak_indices else 0
-- 
2.43.0


From daf6515d6cc1dc56c83f9f61e6a4108501b30238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:47 +0000
Subject: [PATCH 04/18] fix: sizing curves of a swing system leave its mix
 fraction unchanged

---
 .../dhwsystems/recirc_systems/SwingSystem.py        | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
index 4aed5c3..99afb79 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/SwingSystem.py
@@ -310,6 +310,7 @@ class SwingSystem(RecircSystem):
             storage_out:    list[float] = []
 
             original_run_hr = self.max_daily_run_hr
+            original_eff_mix = self._eff_mix_fraction
             try:
                 for h in heat_hours:
                     self.max_daily_run_hr = float(h)
@@ -329,6 +330,7 @@ class SwingSystem(RecircSystem):
                     storage_out.append(storage_vol)
             finally:
                 self.max_daily_run_hr = original_run_hr
+                self._eff_mix_fraction = original_eff_mix
 
             rec_index = min(rec_index, max(0, len(heat_hours_out) - 1))
 
@@ -342,6 +344,17 @@ class SwingSystem(RecircSystem):
             if was_annual:
                 building.set_to_annual_load_shape()
 
+    def get_ls_sizing_curve(self, building: "Building", *args, **kwargs) -> dict:
+        """
+        Same as DHWSystem.get_ls_sizing_curve(); the effective mix fraction of the
+        sized system is kept (the volume calculation overwrites it).
+        """
+        original_eff_mix = self._eff_mix_fraction
+        try:
+            return super().get_ls_sizing_curve(building, *args, **kwargs)
+        finally:
+            self._eff_mix_fraction = original_eff_mix
+
     # ------------------------------------------------------------------
     # TM sizing
     # ------------------------------------------------------------------
-- 
2.43.0


From 9c1f85bb3975d4a722693970b11f40459a4e22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:53 +0000
Subject: [PATCH 05/18] fix: start every simulation with the heaters off so
 reruns are reproducible

---
 src/ecoengine/interfaces/Simulator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ecoengine/interfaces/Simulator.py b/src/ecoengine/interfaces/Simulator.py
index 0127b4c..23278c7 100644
--- a/src/ecoengine/interfaces/Simulator.py
+++ b/src/ecoengine/interfaces/Simulator.py
@@ -76,6 +76,13 @@ def simulate(dhw_system: DHWSystem, building: Building, duration: str = "3day",
             percent_useable = 1.0,
         )
 
+    # Every run starts with the heaters off, whatever an earlier run left behind
+    for wh in dhw_system.water_heaters:
+        wh.turn_off()
+    tm_water_heater = getattr(dhw_system, "tm_water_heater", None)
+    if tm_water_heater is not None:
+        tm_water_heater.turn_off()
+
     sim_run.supply_temp_f = dhw_system.supply_temp_f
     num_steps = duration_min // timestep_min
     for i in range(num_steps):
-- 
2.43.0


From c0fde038c67f388bf099bd2bb21404fea1f0bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:56 +0000
Subject: [PATCH 06/18] fix: report the outdoor air temperature in multi-pass
 RTP steps

---
 .../objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
index 60198e8..5c46c07 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/MultiPassRTPSystem.py
@@ -638,7 +638,7 @@ class MultiPassRTPSystem(RTPSystem):
             "usable_volume_supplyT_gal": usable_vol_gal,
             "heater_output_kbtuh":       total_kbtuh,
             "heater_power_in_kw":        total_kw,
-            "oat_f":                     top_temp_f,
+            "oat_f":                     oat_f,
             "inlet_water_temp_f":        inlet_water_temp_f,
             "tank_temps_f":              tank_temps_f,
             "mode":                      mode,
-- 
2.43.0


From 079a3a792dc798fb129dea5264aa3c5887880908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:00 +0000
Subject: [PATCH 07/18] fix: drop the debug print from every parallel-loop
 timestep

---
 .../objects/dhwsystems/recirc_systems/ParallelLoopSystem.py      | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
index 7bbdbb1..17c9db7 100644
--- a/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
+++ b/src/ecoengine/objects/dhwsystems/recirc_systems/ParallelLoopSystem.py
@@ -414,5 +414,4 @@ class ParallelLoopSystem(RecircSystem):
         step["tm_tank_temp_f"]         = self.tm_storage_tank.get_temperature_at_fraction(0.5)
         step["tm_heater_output_kbtuh"] = tm_kbtuh
         step["tm_heater_input_kw"]     = tm_kw
-        print(f'{step["tm_heater_input_kw"]}, {step["tm_tank_temp_f"] }, {step["tm_heater_output_kbtuh"]}')
         return step
-- 
2.43.0


From bc39b8ae1d9fc4809a14d737c841a34b34f43cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:50 +0000
Subject: [PATCH 08/18] fix: keep the recorded TM power aligned with the
 timesteps when the TM heater is idle

---
 src/ecoengine/objects/simulation/SimulationRun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 5c68b12..7793eaf 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -150,7 +150,8 @@ class SimulationRun:
             self.tm_tank_temp_f.append(tm_tank_temp_f)
         if tm_heater_output_kbtuh is not None:
             self.tm_heater_output_kbtuh.append(tm_heater_output_kbtuh)
-        if tm_heater_input_kw is not None:
+        # None (idle or unknown) is kept so the list stays aligned with the steps
+        if tm_heater_input_kw is not None or tm_heater_output_kbtuh is not None:
             self.tm_heater_input_kw.append(tm_heater_input_kw)
 
     def check_outlet_deficit(self, top_tank_temp_f: float, supply_temp_f: float) -> bool:
-- 
2.43.0


From 95549fef791735b823204a01a5c986aa3c554e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:55 +0000
Subject: [PATCH 09/18] fix: include TM heater power in monthly energy, monthly
 cost and peak demand

---
 src/ecoengine/objects/simulation/SimulationRun.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 7793eaf..2b90391 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -277,6 +277,9 @@ class SimulationRun:
         float
         """
         non_none = [p for p in self.heater_power_in_kw if p is not None]
+        for i, tm_kw in enumerate(self.tm_heater_input_kw[:len(self.heater_power_in_kw)]):
+            if tm_kw is not None:
+                non_none.append((self.heater_power_in_kw[i] or 0.0) + tm_kw)
         return max(non_none) if non_none else 0.0
 
     def get_summary(self) -> dict:
@@ -602,6 +605,8 @@ class SimulationRun:
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
+            if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
+                kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
             energy_by_month[_step_to_month(i, self.timestep_min)] += (
                 kw * hours_per_step * rate
@@ -700,5 +705,9 @@ class SimulationRun:
                 (self.heater_power_in_kw[i] or 0.0) * hours_per_step
                 for i in range(step, min(step + n_steps, len(self.heater_power_in_kw)))
             )
+            monthly[month_idx] += sum(
+                (self.tm_heater_input_kw[i] or 0.0) * hours_per_step
+                for i in range(step, min(step + n_steps, len(self.tm_heater_input_kw)))
+            )
             step += n_steps
         return monthly
-- 
2.43.0


From dafe92da159ce001ff81631693f39747ec647033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:03 +0000
Subject: [PATCH 10/18] fix: size the instantaneous heater for the peak hourly
 rate, not 60 times it

---
 src/ecoengine/objects/dhwsystems/InstantWHSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
index 5a0bdf6..4d15890 100644
--- a/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
+++ b/src/ecoengine/objects/dhwsystems/InstantWHSystem.py
@@ -81,7 +81,7 @@ class InstantWHSystem(DHWSystem):
         delta_t = self.supply_temp_f - design_inlet_temp_f
 
         # Peak instantaneous generation rate [gal/hr at supply temp]
-        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape)) * 60.0
+        peak_gph = building.daily_dhw_use_supplyT_gal * float(max(building.peak_load_shape))
 
         self._minimum_capacity_kbtuh       = peak_gph * _RHO_CP * delta_t / self.defrost_factor / 1000.0
         self._minimum_storage_storageT_gal = 0.0
-- 
2.43.0


From 3a171e91a0f4f42b3ca8a943c811207e0dd33820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:17 +0000
Subject: [PATCH 11/18] fix: restore building daily demand exactly after SPRTP
 load-shift sizing

---
 .../objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
index 401c001..9260b9e 100644
--- a/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
+++ b/src/ecoengine/objects/dhwsystems/rtp_systems/SinglePassRTPSystem.py
@@ -254,13 +254,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        daily_dhw_use_supplyT_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_gen_rate_ls_gph(
                 control_schedule, control_map, building, strat_slope, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = daily_dhw_use_supplyT_gal
         return result
 
     def _calc_running_volume_ls_supplyT_gal(
@@ -310,13 +311,14 @@ class SinglePassRTPSystem(RTPSystem):
             * 24.0
         )
 
+        daily_dhw_use_supplyT_gal = building.daily_dhw_use_supplyT_gal
         building.daily_dhw_use_supplyT_gal += recirc_daily_supplyT_gal
         try:
             result = super()._calc_running_volume_ls_supplyT_gal(
                 control_schedule, building, gen_rate_ls_gph, fract_total_vol
             )
         finally:
-            building.daily_dhw_use_supplyT_gal -= recirc_daily_supplyT_gal
+            building.daily_dhw_use_supplyT_gal = daily_dhw_use_supplyT_gal
         return result
 
     # ------------------------------------------------------------------
-- 
2.43.0


From dc13a04b5fa4e9a439e5c04e07fe0ea2f62ee236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:20 +0000
Subject: [PATCH 12/18] fix: mixed tank accepts the supply temperature of
 add_recirc_return like every storage tank

---
 .../objects/components/storage/MixedStorageTank.py        | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ecoengine/objects/components/storage/MixedStorageTank.py b/src/ecoengine/objects/components/storage/MixedStorageTank.py
index 745c0d4..aa4e9f0 100644
--- a/src/ecoengine/objects/components/storage/MixedStorageTank.py
+++ b/src/ecoengine/objects/components/storage/MixedStorageTank.py
@@ -157,6 +157,7 @@ class MixedStorageTank(StorageTank):
         flow_gpm: float,
         return_temp_f: float,
         duration_min: float,
+        supply_temp_f: float | None = None,
     ) -> None:
         """
         Apply the net temperature drop from recirc loop losses.
@@ -178,11 +179,16 @@ class MixedStorageTank(StorageTank):
             Temperature of water returning from the recirc loop [°F].
         duration_min : float
             Length of the timestep [minutes].
+        supply_temp_f : float | None
+            Temperature of water entering the loop [°F]. Defaults to the tank
+            temperature.
         """
+        if supply_temp_f is None:
+            supply_temp_f = self._temperature_f
         vol_circulated_gal = flow_gpm * duration_min
         delta_t = (
             vol_circulated_gal
-            * (return_temp_f - self._temperature_f)
+            * (return_temp_f - supply_temp_f)
             / self.total_volume_gal
         )
         self._temperature_f += delta_t  # always negative when return < tank temp
-- 
2.43.0


From c69bd3959f409b683154e07be55659b4d33b3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:01 +0000
Subject: [PATCH 13/18] fix: monthly cost breakdowns keep every demand period
 of a CSV tariff

---
 .../objects/simulation/SimulationRun.py       | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/ecoengine/objects/simulation/SimulationRun.py b/src/ecoengine/objects/simulation/SimulationRun.py
index 2b90391..45b6037 100644
--- a/src/ecoengine/objects/simulation/SimulationRun.py
+++ b/src/ecoengine/objects/simulation/SimulationRun.py
@@ -602,27 +602,26 @@ class SimulationRun:
         hours_per_step  = self.timestep_min / 60.0
         energy_by_month = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period: dict[int, int] = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw   = kw_raw or 0.0
             if self.tm_heater_input_kw and i < len(self.tm_heater_input_kw):
                 kw += self.tm_heater_input_kw[i] or 0.0
             rate = uc.get_energy_charge_at_step(i, self.timestep_min)
-            energy_by_month[_step_to_month(i, self.timestep_min)] += (
-                kw * hours_per_step * rate
-            )
+            month = _step_to_month(i, self.timestep_min)
+            energy_by_month[month] += kw * hours_per_step * rate
             period = uc.get_demand_period_at_step(i, self.timestep_min)
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period] = month
 
-        # Assign each period's demand charge to its calendar month.
-        # Period key = month * num_periods + offset → month = key // num_periods.
-        num_periods     = 3 if uc.include_discount else 2
+        # Assign each period's demand charge to the calendar month of its peak
+        # (a CSV tariff may use any period labels, so the label says nothing).
         demand_by_month = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
+            m = month_by_period[period]
+            demand_by_month[m] += uc.get_demand_charge_for_period(period, max_kw)
 
         return {
             "energy": energy_by_month,
@@ -645,6 +644,7 @@ class SimulationRun:
         energy_peak         = [0.0] * 12
         energy_off_peak     = [0.0] * 12
         max_kw_by_period: dict[int, float] = {}
+        month_by_period: dict[int, int] = {}
 
         for i, kw_raw in enumerate(self.heater_power_in_kw):
             kw = kw_raw or 0.0
@@ -660,18 +660,17 @@ class SimulationRun:
                 energy_off_peak[month] += cost
             if period not in max_kw_by_period or kw > max_kw_by_period[period]:
                 max_kw_by_period[period] = kw
+                month_by_period[period] = month
 
-        num_periods    = 3 if uc.include_discount else 2
         demand_peak    = [0.0] * 12
         demand_off_peak = [0.0] * 12
         for period, max_kw in max_kw_by_period.items():
-            m = period // num_periods
-            if 0 <= m < 12:
-                charge = uc.get_demand_charge_for_period(period, max_kw)
-                if uc.is_peak_map.get(period, False):
-                    demand_peak[m] += charge
-                else:
-                    demand_off_peak[m] += charge
+            m = month_by_period[period]
+            charge = uc.get_demand_charge_for_period(period, max_kw)
+            if uc.is_peak_map.get(period, False):
+                demand_peak[m] += charge
+            else:
+                demand_off_peak[m] += charge
 
         return {
             "energy_peak":     energy_peak,
-- 
2.43.0


From a07453dd2c937bb4e3f171cd6997ac9e3b9cd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:05 +0000
Subject: [PATCH 14/18] fix: exporting a tariff with hourly energy rates keeps
 every hour's rate

---
 src/ecoengine/objects/building/UtilityCostTracker.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/objects/building/UtilityCostTracker.py b/src/ecoengine/objects/building/UtilityCostTracker.py
index d008c95..7f01ad8 100644
--- a/src/ecoengine/objects/building/UtilityCostTracker.py
+++ b/src/ecoengine/objects/building/UtilityCostTracker.py
@@ -640,8 +640,9 @@ class UtilityCostTracker:
 
         Produces 8760 data rows (one per hour of a non-leap year) plus a header.
         Energy and demand rates are written on the *first* occurrence of each
-        demand period; subsequent rows leave those fields blank.  The monthly
-        base charge appears only in the first data row.
+        demand period; subsequent rows leave those fields blank, except that a
+        tariff with hourly energy rates writes the rate of every hour.  The
+        monthly base charge appears only in the first data row.
 
         Parameters
         ----------
@@ -679,6 +680,8 @@ class UtilityCostTracker:
                 else:
                     energy_rate = ""
                     demand_rate = ""
+                if len(self.energy_charge_by_hour) == 8760:
+                    energy_rate = self.energy_charge_by_hour[h]
 
                 base_charge = self.monthly_base_charge if h == 0 else ""
                 writer.writerow([date_str, period, energy_rate, demand_rate, base_charge])
-- 
2.43.0


From 96aa57b85921a193c35629ec3980e1fa0c94a3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:20 +0000
Subject: [PATCH 15/18] fix: validate a custom peak load shape also when it has
 to be normalised

---
 src/ecoengine/objects/building/Building.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoengine/objects/building/Building.py b/src/ecoengine/objects/building/Building.py
index 78c0116..1cdcce0 100644
--- a/src/ecoengine/objects/building/Building.py
+++ b/src/ecoengine/objects/building/Building.py
@@ -329,11 +329,13 @@ class Building:
                 # derive magnitude from unnormalized shape sum
                 daily_gal = float(raw_sum)
                 peak_ls   = np.array([x / raw_sum for x in raw])
+                _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
             else:
                 daily_gal = float(magnitude)
                 # normalize if unnormalized, otherwise validate
                 if abs(raw_sum - 1.0) > 1e-3:
                     peak_ls = np.array([x / raw_sum for x in raw])
+                    _validate_load_shape(list(peak_ls), 'custom_peak_load_shape')
                 else:
                     _validate_load_shape(raw, 'custom_peak_load_shape')
                     peak_ls = np.array(raw)
-- 
2.43.0


From fa9416ae0677131fc70be40dce5eec16814fde2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:17 +0000
Subject: [PATCH 16/18] fix: attach the engine's utility cost tracker to its
 building as documented

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index d6c7039..af1b020 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -693,6 +693,7 @@ class EcosizerEngine:
             gpdpp                   = self.gpdpp,
             custom_peak_load_shape  = self.custom_peak_load_shape,
             custom_avg_load_shape   = self.custom_avg_load_shape,
+            utility_cost_tracker    = self.utility_cost_tracker,
         )
 
     def _build_climate_zone(self, ClimateZone):
-- 
2.43.0


From de82f921ca1da253c01f61b8fa5071c2868e13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:22 +0000
Subject: [PATCH 17/18] fix: sized parallel-loop systems get the requested
 number of TM heaters

---
 src/ecoengine/interfaces/EcosizerEngine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index af1b020..98d47a8 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -840,6 +840,7 @@ class EcosizerEngine:
                     tm_off_temp_f              = self.tm_off_temp_f,
                     tm_off_time_hr             = self.tm_off_time_hr,
                     tm_safety_factor           = self.tm_safety_factor,
+                    num_tm_heaters             = self.num_tm_heaters,
                     max_daily_run_hr           = self.max_daily_run_hr,
                     defrost_factor             = self.defrost_factor,
                     control_schedule           = control_schedule,
-- 
2.43.0


From deae1a2c07446e6b8ee3df6c431ff41da1420e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:27 +0000
Subject: [PATCH 18/18] fix: load-up hours without their own aquastat use the
 normal one instead of failing in simulation

---
 src/ecoengine/interfaces/EcosizerEngine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoengine/interfaces/EcosizerEngine.py b/src/ecoengine/interfaces/EcosizerEngine.py
index 98d47a8..134b6b8 100644
--- a/src/ecoengine/interfaces/EcosizerEngine.py
+++ b/src/ecoengine/interfaces/EcosizerEngine.py
@@ -765,11 +765,12 @@ class EcosizerEngine:
             outlet_temp_f    = self.storage_temp_f,
         )
 
-        if self.load_up_hours > 0 and self.load_up_aquastat_fract is not None:
+        if self.load_up_hours > 0:
+            lu_on_fract  = self.load_up_aquastat_fract if self.load_up_aquastat_fract is not None else self.aquastat_fract
             lu_off_fract = self.load_up_off_sensor_fract if self.load_up_off_sensor_fract is not None else self.off_sensor_fract
             lu_off_t     = self.load_up_off_trigger_t_f  if self.load_up_off_trigger_t_f  is not None else off_t
             cmap["loadUp"] = Controls(
-                on_sensor_fract  = self.load_up_aquastat_fract,
+                on_sensor_fract  = lu_on_fract,
                 on_trigger_t_f   = on_t,
                 off_sensor_fract = lu_off_fract,
                 off_trigger_t_f  = lu_off_t,
-- 
2.43.0

